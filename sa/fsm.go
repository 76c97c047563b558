package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// This file explores a scanner as a finite-state machine. Characters are sets
// of runes that branches split, positions in the source are marks ordered
// along the text with bounded gaps between them, everything else is a small
// constant or unknown. What a position stands for in the token language is
// computed by a monitor over the characters passed.

const maxRune = 0x10FFFF

// ---- sets of characters

type cset struct {
	r   []rune // lo, hi, lo, hi, ... sorted, disjoint
	key string
}

var csets = map[string]*cset{}
var csetMu sync.Mutex

func mkSet(r []rune) *cset {
	var sb strings.Builder
	for i := 0; i < len(r); i += 2 {
		fmt.Fprintf(&sb, "%x-%x,", r[i], r[i+1])
	}
	k := sb.String()
	csetMu.Lock()
	defer csetMu.Unlock()
	if s := csets[k]; s != nil {
		return s
	}
	s := &cset{r: r, key: fmt.Sprintf("s%d", len(csets))}
	csets[k] = s
	return s
}

var allRunes = mkSet([]rune{0, maxRune})

func (s *cset) empty() bool { return len(s.r) == 0 }
func (s *cset) size() (n int) {
	for i := 0; i < len(s.r); i += 2 {
		n += int(s.r[i+1]-s.r[i]) + 1
	}
	return
}
func (s *cset) min() rune { return s.r[0] }
func (s *cset) max() rune { return s.r[len(s.r)-1] }
func (s *cset) single() bool {
	return len(s.r) == 2 && s.r[0] == s.r[1]
}
func (s *cset) and(t *cset) *cset {
	if s == t || t == allRunes {
		return s
	}
	var out []rune
	for i, j := 0, 0; i < len(s.r) && j < len(t.r); {
		lo, hi := s.r[i], s.r[i+1]
		if t.r[j] > lo {
			lo = t.r[j]
		}
		if t.r[j+1] < hi {
			hi = t.r[j+1]
		}
		if lo <= hi {
			out = append(out, lo, hi)
		}
		if s.r[i+1] < t.r[j+1] {
			i += 2
		} else {
			j += 2
		}
	}
	return mkSet(out)
}
func (s *cset) not() *cset {
	var out []rune
	next := rune(0)
	for i := 0; i < len(s.r); i += 2 {
		if s.r[i] > next {
			out = append(out, next, s.r[i]-1)
		}
		next = s.r[i+1] + 1
	}
	if next <= maxRune {
		out = append(out, next, maxRune)
	}
	return mkSet(out)
}
func (s *cset) has(c rune) bool {
	i := sort.Search(len(s.r)/2, func(i int) bool { return s.r[2*i+1] >= c })
	return i < len(s.r)/2 && s.r[2*i] <= c
}
func (s *cset) String() string {
	var sb strings.Builder
	for i := 0; i < len(s.r) && i < 12; i += 2 {
		if s.r[i] == s.r[i+1] {
			fmt.Fprintf(&sb, "%q ", s.r[i])
		} else {
			fmt.Fprintf(&sb, "%q-%q ", s.r[i], s.r[i+1])
		}
	}
	return strings.TrimSpace(sb.String())
}

func setWhere(f func(rune) bool) *cset {
	var out []rune
	in := false
	for c := rune(0); c <= maxRune+1; c++ {
		ok := c <= maxRune && f(c)
		if ok && !in {
			out = append(out, c)
		} else if !ok && in {
			out = append(out, c-1)
		}
		in = ok
	}
	return mkSet(out)
}

func setOf(lo, hi int64) *cset {
	if lo < 0 {
		lo = 0
	}
	if hi > maxRune {
		hi = maxRune
	}
	if lo > hi {
		return mkSet(nil)
	}
	return mkSet([]rune{rune(lo), rune(hi)})
}

var hexSet = mkSet([]rune{'0', '9', 'A', 'F', 'a', 'f'})

// ---- values

type vk uint8

const (
	vTop vk = iota
	vConst
	vIv
	vChar
	vPos
	vDiff
	vText
	vSrc
	vSrcAt
	vPtr
	vStruct
	vFn
	vErrFn
	vFile
	vApp
	vTuple
)

type fval struct {
	K      vk
	C      constant.Value
	N      bool // nil constant, or a file position
	Lo, Hi int64
	Ch     *fchar
	M1, M2 *fmark
	Cell   *fcell
	Path   []int
	Fs     []*fval
	Fn     *ssa.Function
	S      string
}

type fchar struct{ id int }
type fmark struct{ id int }
type fcell struct{ name string }

var fsTop = &fval{K: vTop}
var fsNil = &fval{K: vConst, N: true}

func fsInt(n int64) *fval  { return &fval{K: vConst, C: constant.MakeInt64(n)} }
func fsBool(b bool) *fval  { return &fval{K: vConst, C: constant.MakeBool(b)} }
func fsStr(s string) *fval { return &fval{K: vConst, C: constant.MakeString(s)} }
func (v *fval) intc() (int64, bool) {
	if v.K == vConst && v.C != nil && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func (v *fval) boolc() (bool, bool) {
	if v.K == vConst && v.C != nil && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}
func (v *fval) strc() (string, bool) {
	if v.K == vConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// ---- states

type chInfo struct {
	set *cset
	inv bool // an invalid encoding, read as U+FFFD
}

type markInfo struct {
	ch    *fchar // the character at this position
	next  *fmark // the position after it
	mon   *monState
	start *fmark // where the token starts that covers the text before the mark
}

type gap struct{ lo, hi int64 } // hi < 0: unbounded

const gapCap = 3

func (g gap) norm(cap int64) gap {
	if g.hi > cap {
		g.hi = -1
	}
	if g.lo > cap {
		g.lo = cap
		g.hi = -1
	}
	return g
}

func (g gap) add(h gap) gap {
	r := gap{g.lo + h.lo, -1}
	if g.hi >= 0 && h.hi >= 0 {
		r.hi = g.hi + h.hi
	}
	return r
}

type fdefer struct {
	fn   *ssa.Function
	args []*fval
}

type fframe struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	i      int
	regs   map[ssa.Value]*fval
	defers []fdefer
	call   *ssa.Call // in the caller
}

type fstate struct {
	frames []*fframe
	cells  map[*fcell]*fval
	chars  map[*fchar]chInfo
	marks  map[*fmark]markInfo
	order  []*fmark
	gaps   []gap // gaps[i] between order[i] and order[i+1]
	ghost  map[string]string
	ret    *fval
	adv    bool // the last step moved the scanner forward
	reset  bool // the last step moved the scanner back
	trace  *ftrace
}

type ftrace struct {
	up *ftrace
	s  string
}

func (st *fstate) note(s string) { st.trace = &ftrace{st.trace, s} }

// text is the text that was passed, one character for each set.
func (st *fstate) text() string {
	out := ""
	for t := st.trace; t != nil; t = t.up {
		out = t.s + out
	}
	return out
}

func (x chInfo) rep() string {
	if x.inv {
		return "<invalid>"
	}
	if x.set.and(asciiPrint).empty() {
		return fmt.Sprintf("\\u%04x", x.set.min())
	}
	return string(x.set.and(asciiPrint).min())
}

var asciiPrint = mkSet([]rune{0x21, 0x7e})

func (s *fstate) clone() *fstate {
	t := &fstate{cells: map[*fcell]*fval{}, chars: map[*fchar]chInfo{}, marks: map[*fmark]markInfo{}, ghost: map[string]string{}, ret: s.ret, trace: s.trace}
	for _, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]*fval, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]fdefer(nil), f.defers...)
		t.frames = append(t.frames, &g)
	}
	for k, v := range s.cells {
		t.cells[k] = v
	}
	for k, v := range s.chars {
		t.chars[k] = v
	}
	for k, v := range s.marks {
		t.marks[k] = v
	}
	t.order = append([]*fmark(nil), s.order...)
	t.gaps = append([]gap(nil), s.gaps...)
	for k, v := range s.ghost {
		t.ghost[k] = v
	}
	return t
}

func (s *fstate) top() *fframe { return s.frames[len(s.frames)-1] }

func (s *fstate) idx(m *fmark) int {
	for i, x := range s.order {
		if x == m {
			return i
		}
	}
	return -1
}

// dist is the distance from a to b, which must not be before a.
func (s *fstate) dist(a, b *fmark) (gap, bool) {
	i, j := s.idx(a), s.idx(b)
	if i < 0 || j < 0 || j < i {
		return gap{}, false
	}
	g := gap{}
	for ; i < j; i++ {
		g = g.add(s.gaps[i])
	}
	return g, true
}

// sameMark says whether two marks are at the same position.
func (s *fstate) sameMark(a, b *fmark) bool {
	if a == b {
		return a != nil
	}
	if g, ok := s.dist(a, b); ok && g == (gap{0, 0}) {
		return true
	}
	g, ok := s.dist(b, a)
	return ok && g == gap{0, 0}
}

// ---- machine

type fsm struct {
	c        *Ctx
	followed map[int]bool // fields of the scanner that are tracked
	src, end *fmark
	origin   *fmark
	entry    *fmark
	scanner  *fcell
	sT       *types.Struct
	field    map[string]int
	mode     int64
	mon      *monitor
	nid      int
	unds     map[string]bool
	fns      map[*ssa.Function]bool
	live     map[*ssa.Function]*fsLive
	steps    int
	nstates  int
	nedges   int
	probs    map[string]token.Pos
	preds    map[string]*cset
	caps     map[*ssa.BinOp]int64
}

type abandon struct{}
type undecided struct{ s string }

func (h *fsm) id() int { h.nid++; return h.nid }

type frun struct {
	h    *fsm
	st   *fstate
	pre  []int
	n    int
	opts []int
}

func (r *frun) choose(n int) int {
	if n <= 1 {
		return 0
	}
	k := 0
	if r.n < len(r.pre) {
		k = r.pre[r.n]
	} else {
		r.pre = append(r.pre, 0)
	}
	if r.n < len(r.opts) {
		r.opts[r.n] = n
	} else {
		r.opts = append(r.opts, n)
	}
	r.n++
	return k
}

func (r *frun) und(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

// succ computes every successor of a state.
func (h *fsm) succ(st *fstate) (out []*fstate) {
	var pre []int
	for {
		r := &frun{h: h, st: st.clone(), pre: pre}
		ok := true
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case abandon:
					ok = false
				case undecided:
					f := st.top()
					h.unds[f.fn.String()+": "+x.s] = true
					ok = false
				default:
					panic(x)
				}
			}()
			r.step()
		}()
		h.steps++
		if ok {
			out = append(out, r.st)
		}
		pre = r.pre[:r.n]
		i := len(pre) - 1
		for ; i >= 0; i-- {
			if pre[i]+1 < r.opts[i] {
				break
			}
		}
		if i < 0 {
			return out
		}
		pre = append(append([]int(nil), pre[:i]...), pre[i]+1)
	}
}

// explore runs the machine to its end and calls done on every final state.
func (h *fsm) explore(init []*fstate, done func(*fstate)) {
	type node struct {
		st    *fstate
		succ  []int
		plain []int
	}
	seen := map[string]int{}
	var nodes []*node
	var queue []int
	add := func(st *fstate) int {
		h.gc(st)
		k := h.key(st)
		if i, ok := seen[k]; ok {
			return i
		}
		seen[k] = len(nodes)
		nodes = append(nodes, &node{st: st})
		queue = append(queue, len(nodes)-1)
		return len(nodes) - 1
	}
	for _, st := range init {
		add(st)
	}
	for len(queue) > 0 {
		i := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		n := nodes[i]
		if len(nodes) > 1000000 {
			if f := os.Getenv("FSM"); f != "" {
				cnt := map[string]int{}
				fm := map[string]string{}
				for k, j := range seen {
					q := ""
					for _, f := range nodes[j].st.frames {
						q += fmt.Sprintf("%s.%d.%d ", f.fn.Name(), f.b.Index, f.i)
					}
					cnt[q]++
					fm[k] = q
				}
				for q, n := range cnt {
					if n > 3000 {
						fmt.Println(h.mode, n, q)
					}
				}
				for k, q := range fm {
					if strings.HasPrefix(q, f) {
						fmt.Println("KEY", k)
					}
				}
			}
			h.unds["too many states"] = true
			return
		}
		if len(n.st.frames) == 0 {
			done(n.st)
			continue
		}
		var expand func(st *fstate, adv, reset bool, depth int)
		expand = func(st *fstate, adv, reset bool, depth int) {
			for _, s := range h.succ(st) {
				a, r := adv || s.adv, reset || s.reset
				s.adv, s.reset = false, false
				if depth < 200 && len(s.frames) > 0 && !isJoin(s.top()) {
					h.gc(s)
					expand(s, a, r, depth+1)
					continue
				}
				j := add(s)
				h.nedges++
				if !a || r {
					n.plain = append(n.plain, j)
				}
			}
		}
		expand(n.st, false, false, 0)
		if len(n.st.frames) > 0 {
			var fr []*fframe
			for _, f := range n.st.frames {
				fr = append(fr, &fframe{fn: f.fn, b: f.b, i: f.i})
			}
			n.st = &fstate{frames: fr, trace: n.st.trace}
		}
	}
	h.nstates += len(nodes)
	// a cycle of steps that do not move the scanner forward
	state := make([]uint8, len(nodes))
	var stack [][2]int
	for s := range nodes {
		if state[s] != 0 {
			continue
		}
		stack = append(stack[:0], [2]int{s, 0})
		state[s] = 1
		for len(stack) > 0 {
			t := &stack[len(stack)-1]
			n := nodes[t[0]]
			if t[1] >= len(n.plain) {
				state[t[0]] = 2
				stack = stack[:len(stack)-1]
				continue
			}
			j := n.plain[t[1]]
			t[1]++
			switch state[j] {
			case 0:
				state[j] = 1
				stack = append(stack, [2]int{j, 0})
			case 1:
				if fs := nodes[j].st.frames; len(fs) > 0 && fs[0].b != nil {
					f := fs[0]
					h.probs["a loop of "+f.fn.Name()+" can go round without consuming a character"] = blockPos(f.b)
				}
			}
		}
	}
}

// isJoin says that different paths can meet at a point.
func isJoin(f *fframe) bool {
	if f.i > 0 {
		if _, phi := f.b.Instrs[f.i-1].(*ssa.Phi); !phi {
			return true // after a call
		}
	}
	return len(f.b.Preds) > 1
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// ---- liveness

type fsLive struct {
	in  []map[ssa.Value]bool
	num map[ssa.Value]int
}

func (h *fsm) liveOf(fn *ssa.Function) *fsLive {
	if l := h.live[fn]; l != nil {
		return l
	}
	l := &fsLive{in: make([]map[ssa.Value]bool, len(fn.Blocks)), num: map[ssa.Value]int{}}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for _, p := range fn.Params {
		l.num[p] = len(l.num)
	}
	for _, p := range fn.FreeVars {
		l.num[p] = len(l.num)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				l.num[v] = len(l.num)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := h.liveAfter(l, b, len(b.Instrs))
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				liveStep(b.Instrs[k], cur, isReg)
			}
			for v := range cur {
				if !l.in[b.Index][v] {
					l.in[b.Index][v] = true
					ch = true
				}
			}
		}
	}
	h.live[fn] = l
	return l
}

func liveStep(in ssa.Instruction, cur map[ssa.Value]bool, isReg func(ssa.Value) bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(cur, v)
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && isReg(*op) {
			cur[*op] = true
		}
	}
}

// liveAfter is what is live at the end of a block.
func (h *fsm) liveAfter(l *fsLive, b *ssa.BasicBlock, _ int) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s.Index] {
			cur[v] = true
		}
		pi := 0
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(cur, phi)
			switch phi.Edges[pi].(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			default:
				cur[phi.Edges[pi]] = true
			}
		}
	}
	return cur
}

// prune drops the registers that are not used from here on.
func (h *fsm) prune(f *fframe) {
	l := h.liveOf(f.fn)
	cur := h.liveAfter(l, f.b, 0)
	for k := len(f.b.Instrs) - 1; k >= f.i; k-- {
		liveStep(f.b.Instrs[k], cur, func(v ssa.Value) bool {
			switch v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
				return false
			}
			return true
		})
	}
	for v := range f.regs {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == f.b && f.i <= 0 {
			continue
		}
		if !cur[v] {
			delete(f.regs, v)
		}
	}
}

// ---- canonical form

func (h *fsm) gc(st *fstate) {
	var cur *fchar
	if off := h.offset(st); off != nil {
		cur = st.marks[off].ch
	}
	for _, f := range st.frames {
		h.prune(f)
		for v, x := range f.regs {
			// a number computed from a character that was passed
			if x.K == vChar && (x.Lo != 0 || x.S != "") && x.Ch != cur {
				if s := st.chars[x.Ch].set; len(s.r) == 2 {
					lo, hi := charRange(x, s)
					if lo == hi {
						f.regs[v] = fsInt(lo)
					} else {
						f.regs[v] = &fval{K: vIv, Lo: lo, Hi: hi}
					}
				}
			}
		}
	}
	cells := map[*fcell]bool{}
	chars := map[*fchar]bool{}
	marks := map[*fmark]bool{h.end: true, h.entry: true, h.origin: true}
	back := true // the scanner can still go back to where the text is open
	if off := h.offset(st); off != nil && st.marks[off].mon != nil {
		switch ph := st.marks[off].mon.ph; ph {
		case "ws", "lc", "bc", "bc*", "sharp", "ill":
		default:
			back = strings.HasPrefix(ph, "op:")
		}
		if s := st.marks[off].start; s != nil && !back && h.entry != h.end {
			if g, ok := st.dist(s, off); ok && g.lo > 0 {
				delete(marks, h.entry)
			}
		}
	}
	used := map[*fmark]bool{}
	var mark func(v *fval)
	mark = func(v *fval) {
		if v == nil {
			return
		}
		if v.Ch != nil {
			chars[v.Ch] = true
		}
		if v.M1 != nil {
			marks[v.M1], used[v.M1] = true, true
		}
		if v.M2 != nil {
			marks[v.M2], used[v.M2] = true, true
		}
		for _, f := range v.Fs {
			mark(f)
		}
		if v.Cell != nil && !cells[v.Cell] {
			cells[v.Cell] = true
			mark(st.cells[v.Cell])
		}
	}
	mark(&fval{K: vPtr, Cell: h.scanner})
	mark(st.ret)
	for _, f := range st.frames {
		for _, v := range f.regs {
			mark(v)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	// the start of the token the scanner is in
	if off := h.offset(st); off != nil {
		if s := st.marks[off].start; s != nil {
			marks[s], used[s] = true, true
		}
	}
	for c := range st.cells {
		if !cells[c] {
			delete(st.cells, c)
		}
	}
	cap := int64(gapCap)
	if off := h.offset(st); off != nil && st.marks[off].mon != nil {
		switch st.marks[off].mon.ph {
		case "str", "chr", "raw", "lc", "bc", "bc*", "sharp", "over":
			cap = 1
		}
	}
	off := h.offset(st)
	var ord []*fmark
	var gaps []gap
	acc := gap{}
	for i, m := range st.order {
		if i > 0 {
			acc = acc.add(st.gaps[i-1])
		}
		if !marks[m] {
			delete(st.marks, m)
			continue
		}
		if len(ord) > 0 {
			if b := ord[len(ord)-1]; b == h.entry && !used[b] && h.entry != h.end {
				if acc.lo > 1 {
					acc.lo = 1
				}
				acc.hi = -1
			}
			k := cap
			if ord[len(ord)-1] == off && k < 2 {
				k = 2 // the width of the current character
			}
			gaps = append(gaps, acc.norm(k))
		}
		acc = gap{}
		ord = append(ord, m)
	}
	st.order, st.gaps = ord, gaps
	if len(gaps) > 1 && h.entry != h.origin && gaps[0].hi < 0 && ord[0] == h.origin {
		gaps[0].lo = 0
	}
	for m, mi := range st.marks {
		if mi.next != nil && !marks[mi.next] {
			mi.next = nil
		}
		if m != off || mi.start != nil && !marks[mi.start] {
			mi.start = nil
		}
		if m != off && mi.ch != nil && !chars[mi.ch] && !st.frontier(m, off) {
			if x := st.chars[mi.ch]; !x.set.single() || mi.mon == nil || mi.mon.ph != "ws" {
				mi.ch, mi.next = nil, nil
			}
		}
		if m != off && !back {
			mi.mon = nil
		}
		if off != nil && (!used[m] || m == h.end) && m != off {
			mi.mon, mi.ch, mi.next = nil, nil, nil
		}
		st.marks[m] = mi
		if mi.ch != nil {
			chars[mi.ch] = true
		}
	}
	for c := range st.chars {
		if !chars[c] {
			delete(st.chars, c)
		}
	}
}

// frontier says that a mark is ahead of the scanner.
func (s *fstate) frontier(m, off *fmark) bool { return off != nil && s.idx(m) > s.idx(off) }

func (h *fsm) key(st *fstate) string {
	var sb strings.Builder
	chNum := map[*fchar]int{}
	var chOrd []*fchar
	cellNum := map[*fcell]int{}
	var cellOrd []*fcell
	mi := map[*fmark]int{}
	for i, m := range st.order {
		mi[m] = i
	}
	ch := func(c *fchar) int {
		n, ok := chNum[c]
		if !ok {
			n = len(chOrd)
			chNum[c] = n
			chOrd = append(chOrd, c)
		}
		return n
	}
	var val func(v *fval)
	val = func(v *fval) {
		if v == nil {
			sb.WriteString("_")
			return
		}
		sb.WriteByte('A' + byte(v.K))
		if v.C != nil {
			sb.WriteString(v.C.ExactString())
		}
		if v.N {
			sb.WriteByte('!')
		}
		if v.K == vIv || v.K == vChar {
			fmt.Fprintf(&sb, "%d:%d", v.Lo, v.Hi)
		}
		if v.Ch != nil {
			fmt.Fprintf(&sb, "c%d", ch(v.Ch))
		}
		if v.M1 != nil {
			fmt.Fprintf(&sb, "m%d", mi[v.M1])
		}
		if v.M2 != nil {
			fmt.Fprintf(&sb, "n%d", mi[v.M2])
		}
		if v.Cell != nil {
			n, ok := cellNum[v.Cell]
			if !ok {
				n = len(cellOrd)
				cellNum[v.Cell] = n
				cellOrd = append(cellOrd, v.Cell)
			}
			fmt.Fprintf(&sb, "p%d%v", n, v.Path)
		}
		if v.Fn != nil {
			sb.WriteString(v.Fn.String())
		}
		sb.WriteString(v.S)
		if v.Fs != nil {
			sb.WriteByte('(')
			for _, f := range v.Fs {
				val(f)
				sb.WriteByte(',')
			}
			sb.WriteByte(')')
		}
	}
	val(&fval{K: vPtr, Cell: h.scanner})
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "|%p.%d.%d:", f.fn, f.b.Index, f.i)
		l := h.liveOf(f.fn)
		rs := make([]ssa.Value, 0, len(f.regs))
		for v := range f.regs {
			rs = append(rs, v)
		}
		sort.Slice(rs, func(i, j int) bool { return l.num[rs[i]] < l.num[rs[j]] })
		for _, v := range rs {
			fmt.Fprintf(&sb, "%d=", l.num[v])
			val(f.regs[v])
			sb.WriteByte(';')
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
	}
	sb.WriteString("|R")
	val(st.ret)
	for i := 0; i < len(cellOrd); i++ {
		fmt.Fprintf(&sb, "|C%d=", i)
		val(st.cells[cellOrd[i]])
	}
	for i, m := range st.order {
		info := st.marks[m]
		fmt.Fprintf(&sb, "|M%d", i)
		if info.ch != nil {
			fmt.Fprintf(&sb, "c%d", ch(info.ch))
		}
		if info.next != nil {
			fmt.Fprintf(&sb, "n%d", mi[info.next])
		}
		if info.mon != nil {
			sb.WriteString(info.mon.key)
		}
		if info.start != nil {
			fmt.Fprintf(&sb, "s%d", mi[info.start])
		}
		if i < len(st.gaps) {
			fmt.Fprintf(&sb, "g%d:%d", st.gaps[i].lo, st.gaps[i].hi)
		}
	}
	for i := 0; i < len(chOrd); i++ {
		x := st.chars[chOrd[i]]
		fmt.Fprintf(&sb, "|c%d=%s", i, x.set.key)
		if x.inv {
			sb.WriteByte('!')
		}
	}
	var gs []string
	for k, v := range st.ghost {
		gs = append(gs, k+"="+v)
	}
	sort.Strings(gs)
	sb.WriteString("|" + strings.Join(gs, ","))
	return sb.String()
}

// ---- memory

func (h *fsm) offset(st *fstate) *fmark {
	v := st.cells[h.scanner]
	if v == nil || v.K != vStruct {
		return nil
	}
	if o := v.Fs[h.field["offset"]]; o != nil && o.K == vPos {
		return o.M1
	}
	return nil
}

func (h *fsm) get(st *fstate, f string) *fval { return st.cells[h.scanner].Fs[h.field[f]] }

func zeroVal(t types.Type) *fval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return fsBool(false)
		case u.Info()&types.IsInteger != 0:
			return fsInt(0)
		case u.Info()&types.IsString != 0:
			return fsStr("")
		}
		return fsTop
	case *types.Struct:
		v := &fval{K: vStruct}
		for i := 0; i < u.NumFields(); i++ {
			v.Fs = append(v.Fs, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() > 16 {
			return fsTop
		}
		v := &fval{K: vStruct}
		for i := int64(0); i < u.Len(); i++ {
			v.Fs = append(v.Fs, zeroVal(u.Elem()))
		}
		return v
	}
	return fsNil
}

func loadPath(v *fval, path []int) *fval {
	for _, i := range path {
		if v == nil || v.K != vStruct || i >= len(v.Fs) {
			return fsTop
		}
		v = v.Fs[i]
	}
	return v
}

func storePath(v *fval, path []int, x *fval) *fval {
	if len(path) == 0 {
		return x
	}
	if v == nil || v.K != vStruct || path[0] >= len(v.Fs) {
		return fsTop
	}
	w := *v
	w.Fs = append([]*fval(nil), v.Fs...)
	w.Fs[path[0]] = storePath(v.Fs[path[0]], path[1:], x)
	return &w
}

func (r *frun) load(p *fval) *fval {
	switch p.K {
	case vPtr:
		return loadPath(r.st.cells[p.Cell], p.Path)
	case vSrcAt:
		return r.byteAt(p.M1)
	}
	return fsTop
}

func (r *frun) store(p, x *fval, pos token.Pos) {
	h := r.h
	if p.K != vPtr {
		r.und("a store through an unknown pointer")
	}
	if p.Cell == h.scanner && len(p.Path) == 1 && h.mon != nil {
		if n, ok := x.intc(); ok && n == 0 && (p.Path[0] == h.field["offset"] || p.Path[0] == h.field["rdOffset"]) {
			x = &fval{K: vPos, M1: h.origin}
		}
		if p.Path[0] == h.field["offset"] {
			r.moveTo(x)
		}
		if !h.followed[p.Path[0]] {
			x = fsTop
		}
	}
	r.st.cells[p.Cell] = storePath(r.st.cells[p.Cell], p.Path, x)
}

// moveTo follows the scanner to another position.
func (r *frun) moveTo(x *fval) {
	h, st := r.h, r.st
	p := h.offset(st)
	if h.mon == nil || p == nil {
		return
	}
	if x.K != vPos || x.N {
		r.und("the scanner moves to an unknown position")
	}
	q := x.M1
	if st.sameMark(p, q) {
		mi, mj := st.marks[p], st.marks[q]
		mj.mon, mj.start = mi.mon, mi.start
		if mj.ch == nil {
			mj.ch, mj.next = mi.ch, mi.next
		}
		st.marks[q] = mj
		return
	}
	if st.idx(q) < st.idx(p) {
		st.reset = true
		st.note("<back>")
		v, com := r.verdict(p)
		if x := st.marks[p]; x.ch != nil && st.badChar(x.ch) {
			st.setBad()
		}
		mi := st.marks[q]
		if mi.mon == nil {
			r.und("the scanner moves back to a position where it has not been")
		}
		first := mi.mon.ph == "ws" && com && mi.ch != nil && st.chars[mi.ch].set == slashSet
		if mi.mon.pend == 'p' && (v != 0 || first) {
			mi.mon = h.mon.state(mi.mon.with(func(m *monState) {
				if v != 0 {
					m.pend = v
				}
				m.first = first
			}))
			st.marks[q] = mi
		}
		return
	}
	if g, ok := st.dist(p, q); ok && g.lo >= 1 {
		st.adv = true
	}
	mi := st.marks[p]
	if mi.ch == nil || mi.next == nil || !st.sameMark(mi.next, q) {
		r.und("the scanner moves over text it has not read")
	}
	next := r.delta(mi.mon, mi.ch)
	st.note(st.chars[mi.ch].rep())
	if st.badChar(mi.ch) && p != h.entry { // the first one was read, and reported, before
		st.setBad()
	}
	next = h.settle(st, next)
	mj := st.marks[q]
	mj.mon = next
	mj.start = mi.start
	if mi.mon.ph == "ws" {
		mj.start = p
	}
	st.marks[q] = mj
}

// delta moves the monitor over a character, which is split as needed.
func (r *frun) delta(m *monState, c *fchar) *monState {
	part := r.h.mon.partition(m)
	info := r.st.chars[c]
	if info.inv {
		if part.inv.ph == "infeasible" {
			panic(abandon{})
		}
		return part.inv
	}
	var opts []monEdge
	for _, e := range part.edges {
		if s := info.set.and(e.set); !s.empty() {
			opts = append(opts, monEdge{s, e.next})
		}
	}
	if len(opts) == 0 {
		panic(abandon{})
	}
	e := opts[r.choose(len(opts))]
	info.set = e.set
	r.st.chars[c] = info
	if e.next.ph == "infeasible" {
		panic(abandon{})
	}
	return e.next
}

var slashSet = setOf('/', '/')

// setBad and setErr keep what is known of reports: an error was reported ("1"),
// an illegal character was read ("b"), both ("2").
func (st *fstate) setBad() {
	switch st.ghost["e"] {
	case "":
		st.ghost["e"] = "b"
	case "1":
		st.ghost["e"] = "2"
	}
}

func (st *fstate) setErr() {
	switch st.ghost["e"] {
	case "":
		st.ghost["e"] = "1"
	case "b":
		st.ghost["e"] = "2"
	}
}

func (st *fstate) reported() bool { return st.ghost["e"] == "1" || st.ghost["e"] == "2" }

// settled says that the text is malformed and reported to be so.
func (r *frun) settled() bool {
	if r.st.ghost["e"] != "2" || r.h.mon == nil {
		return false
	}
	off := r.h.offset(r.st)
	if off == nil {
		return false
	}
	m := r.st.marks[off].mon
	return m != nil && (m.ph == "str" || m.ph == "chr") && m.mal
}

// settle forgets how an error came about that was due and was reported.
func (h *fsm) settle(st *fstate, m *monState) *monState {
	if m.ph != "str" && m.ph != "chr" {
		return m
	}
	switch st.ghost["e"] {
	case "1":
		if m.mal {
			st.ghost["e"] = "2"
		}
	case "2":
		if !m.mal {
			return h.mon.state(m.with(func(m *monState) { m.mal, m.n = true, 0 }))
		}
	}
	return m
}

// verdict says what the text up to p and the character there tell about the
// rest of the line: a newline ('n') or a token ('t') comes first.
func (r *frun) verdict(p *fmark) (v byte, com bool) {
	st := r.st
	mi := st.marks[p]
	if mi.mon == nil {
		return 0, false
	}
	if mi.mon.pend == 'n' {
		return 'n', mi.mon.com
	}
	if st.sameMark(p, r.h.end) {
		if strings.HasPrefix(mi.mon.ph, "op:") {
			return 't', mi.mon.com
		}
		return 'n', mi.mon.com
	}
	if mi.ch == nil {
		return 0, mi.mon.com
	}
	next := r.delta(mi.mon, mi.ch)
	if next.pend == 'n' {
		v = 'n'
	} else if next.pend == 0 {
		v = 't'
	}
	return v, next.com || mi.mon.com
}

// ---- positions

func (r *frun) newMark() *fmark {
	m := &fmark{id: r.h.id()}
	r.st.marks[m] = markInfo{}
	return m
}

func (s *fstate) insert(i int, m *fmark, before, after gap) {
	s.order = append(s.order, nil)
	copy(s.order[i+2:], s.order[i+1:])
	s.order[i+1] = m
	s.gaps = append(s.gaps, gap{})
	copy(s.gaps[i+1:], s.gaps[i:])
	s.gaps[i] = before
	s.gaps[i+1] = after
}

// posAdd finds or makes the position k bytes from p.
func (r *frun) posAdd(p *fmark, k int64) *fmark {
	st := r.st
	if k == 0 {
		return p
	}
	i := st.idx(p)
	if k < 0 {
		for k < 0 {
			if i == 0 {
				return nil
			}
			g := st.gaps[i-1]
			if g.lo != g.hi {
				return nil
			}
			k += g.lo
			i--
			if k == 0 {
				return st.order[i]
			}
		}
		return nil
	}
	for {
		if i == len(st.gaps) {
			return nil // behind the end
		}
		g := st.gaps[i]
		if g.lo == g.hi {
			if g.lo <= k {
				k -= g.lo
				i++
				if k == 0 {
					return st.order[i]
				}
				continue
			}
		} else if g.lo < k {
			return nil
		}
		q := r.newMark()
		hi := int64(-1)
		if g.hi >= 0 {
			hi = g.hi - k
		}
		st.insert(i, q, gap{k, k}, gap{g.lo - k, hi})
		base := st.order[i]
		if mi := st.marks[base]; mi.ch != nil && mi.next == nil && k == 1 {
			x := st.chars[mi.ch]
			if x.inv || x.set.max() < 0x80 {
				mi.next = q
				st.marks[base] = mi
			}
		}
		return q
	}
}

// readAt reads the character at a position.
func (r *frun) readAt(p *fmark) *fchar {
	st := r.st
	mi := st.marks[p]
	if mi.ch != nil {
		return mi.ch
	}
	g, ok := st.dist(p, r.h.end)
	if !ok || g.lo < 1 {
		r.und("the source is read past its end")
	}
	c := &fchar{id: r.h.id()}
	st.chars[c] = chInfo{set: allRunes}
	mi.ch = c
	st.marks[p] = mi
	return c
}

var asciiSet = setOf(0, 0x7f)
var wideSet = setOf(0x80, maxRune)

func (r *frun) splitSet(c *fchar, opts ...*cset) int {
	info := r.st.chars[c]
	if info.inv {
		for i, o := range opts {
			if o.has(0xFFFD) {
				return i
			}
		}
	}
	var ok []int
	for i, o := range opts {
		if !info.set.and(o).empty() {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		panic(abandon{})
	}
	k := ok[r.choose(len(ok))]
	info.set = info.set.and(opts[k])
	r.st.chars[c] = info
	return k
}

func (r *frun) byteAt(p *fmark) *fval {
	c := r.readAt(p)
	if r.st.chars[c].inv || r.splitSet(c, asciiSet, wideSet) == 1 {
		return &fval{K: vIv, Lo: 0x80, Hi: 0xff}
	}
	return &fval{K: vChar, Ch: c}
}

// decode reads the character at a position and its width.
func (r *frun) decode(p *fmark) (*fval, *fval) {
	st := r.st
	c := r.readAt(p)
	info := st.chars[c]
	ch := &fval{K: vChar, Ch: c}
	if info.inv {
		return ch, fsInt(1)
	}
	if r.splitSet(c, asciiSet, wideSet) == 0 {
		return ch, fsInt(1)
	}
	mi := st.marks[p]
	if mi.next == nil {
		if r.choose(2) == 1 {
			info.inv = true
			info.set = setOf(0xFFFD, 0xFFFD)
			st.chars[c] = info
			return ch, fsInt(1)
		}
		i := st.idx(p)
		g := st.gaps[i]
		if st.order[i+1] != r.h.end {
			r.und("a character is decoded in front of a known position")
		}
		q := r.newMark()
		lo := g.lo - 4
		if lo < 0 {
			lo = 0
		}
		st.insert(i, q, gap{2, 4}, gap{lo, -1})
		mi.next = q
		st.marks[p] = mi
	}
	return ch, &fval{K: vDiff, M1: p, M2: mi.next}
}

// ---- comparisons

func cmpHolds(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// ivCut is the part of [lo,hi] (hi < 0: unbounded if unb) where x op k holds.
func ivCut(op token.Token, lo, hi int64, k int64) [][2]int64 {
	const inf = int64(1) << 60
	cl := func(a, b int64) [][2]int64 {
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a > b {
			return nil
		}
		return [][2]int64{{a, b}}
	}
	switch op {
	case token.EQL:
		return cl(k, k)
	case token.NEQ:
		return append(cl(-inf, k-1), cl(k+1, inf)...)
	case token.LSS:
		return cl(-inf, k-1)
	case token.LEQ:
		return cl(-inf, k)
	case token.GTR:
		return cl(k+1, inf)
	case token.GEQ:
		return cl(k, inf)
	}
	return nil
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (r *frun) compare(op token.Token, a, b *fval, in *ssa.BinOp) *fval {
	h, st := r.h, r.st
	if _, ok := a.intc(); ok {
		if _, ok := b.intc(); !ok {
			a, b, op = b, a, flip(op)
		}
	}
	if a.K == vConst && b.K == vConst {
		if a.N || b.N {
			if a.N && b.N {
				return fsBool(op == token.EQL)
			}
			return fsTop
		}
		if a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Unknown {
			return fsBool(constant.Compare(a.C, op, b.C))
		}
		return fsTop
	}
	// nil tests of things that are there
	if a.N && b.K != vPos {
		a, b = b, a
	}
	if b.K == vConst && b.N {
		switch a.K {
		case vErrFn, vFile, vPtr, vFn:
			return fsBool(op == token.NEQ)
		}
		return fsTop
	}
	const inf = int64(1) << 60
	if k, ok := b.intc(); ok {
		switch a.K {
		case vChar:
			ts := charCmp(a, op, k)
			return fsBool(r.splitSet(a.Ch, ts, ts.not()) == 0)
		case vIv:
			yes, no := ivCut(op, a.Lo, a.Hi, k), ivCut(negOp(op), a.Lo, a.Hi, k)
			if len(yes) == 0 || len(no) == 0 {
				return fsBool(len(no) == 0)
			}
			all := append(append([][2]int64{}, yes...), no...)
			i := r.choose(len(all))
			nv := &fval{K: vIv, Lo: all[i][0], Hi: all[i][1]}
			if nv.Lo == nv.Hi {
				nv = fsInt(nv.Lo)
			}
			f := st.top()
			for v, x := range f.regs {
				if x == a {
					f.regs[v] = nv
				}
			}
			return fsBool(i < len(yes))
		case vDiff:
			g, ok := st.dist(a.M1, a.M2)
			if !ok {
				return fsTop
			}
			return r.gapCmp(op, a.M1, a.M2, g, k)
		case vPos:
			if a.N {
				return fsTop
			}
			g, ok := st.dist(h.origin, a.M1)
			if !ok {
				return fsTop
			}
			return r.gapCmp(op, h.origin, a.M1, g, k)
		}
		return fsTop
	}
	if a.K == vPos && b.K == vPos && a.N == b.N {
		if a.M1 == b.M1 {
			return fsBool(cmpHolds(op, 0, 0))
		}
		if g, ok := st.dist(b.M1, a.M1); ok { // a - b
			return r.gapCmp(op, b.M1, a.M1, g, 0)
		}
		if g, ok := st.dist(a.M1, b.M1); ok {
			return r.gapCmp(flip(op), a.M1, b.M1, g, 0)
		}
		return fsTop
	}
	if a.K == vChar && b.K == vChar {
		x, y := st.chars[a.Ch].set, st.chars[b.Ch].set
		if a.Ch == b.Ch && a.Lo == b.Lo && a.S == b.S {
			return fsBool(cmpHolds(op, 0, 0))
		}
		if x.single() && !y.single() {
			return r.compare(flip(op), b, fsInt(charVal(a, x.min())), in)
		}
		if y.single() {
			return r.compare(op, a, fsInt(charVal(b, y.min())), in)
		}
	}
	return fsTop
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	}
	return token.LSS
}

// gapCmp decides or splits on (m2 - m1) op k.
func (r *frun) gapCmp(op token.Token, m1, m2 *fmark, g gap, k int64) *fval {
	const inf = int64(1) << 60
	hi := g.hi
	if hi < 0 {
		hi = inf
	}
	yes, no := ivCut(op, g.lo, hi, k), ivCut(negOp(op), g.lo, hi, k)
	if len(yes) == 0 || len(no) == 0 {
		return fsBool(len(no) == 0)
	}
	all := append(append([][2]int64{}, yes...), no...)
	i := r.choose(len(all))
	st := r.st
	if a := st.idx(m1); st.order[a+1] == m2 {
		ng := gap{all[i][0], all[i][1]}
		if ng.hi >= inf {
			ng.hi = -1
		}
		st.gaps[a] = ng
	}
	return fsBool(i < len(yes))
}

// ---- arithmetic

// hull is the range of an integer value; the character in it is settled first.
func (r *frun) hull(v *fval) (lo, hi int64, ok bool) {
	switch v.K {
	case vConst:
		if k, ok := v.intc(); ok {
			return k, k, true
		}
	case vIv:
		return v.Lo, v.Hi, true
	case vChar:
		// split by what the monitor wants to know about it
		for m, mi := range r.st.marks {
			if mi.ch == v.Ch && mi.mon != nil && r.h.mon != nil {
				_ = m
				if s := r.st.chars[v.Ch].set; s.and(hexSet) == s && r.h.mon.uniform(mi.mon) {
					lo, hi := charRange(v, s)
					switch {
					case lo >= 0 && hi <= 7:
						return 0, 7, true
					case lo >= 0 && hi <= 15:
						return 0, 15, true
					}
				}
				r.delta(mi.mon, v.Ch)
				break
			}
		}
		s := r.st.chars[v.Ch].set
		n := len(s.r) / 2
		if n > 8 {
			return 0, 0, false
		}
		i := r.choose(n)
		x := r.st.chars[v.Ch]
		x.set = mkSet(append([]rune(nil), s.r[2*i:2*i+2]...))
		r.st.chars[v.Ch] = x
		lo, hi = charRange(v, x.set)
		return lo, hi, true
	}
	return 0, 0, false
}

func (r *frun) ints(op token.Token, a, b *fval, t types.Type) *fval {
	if a.K == vTop || b.K == vTop {
		return fsTop
	}
	if r.settled() && (a.K == vChar || a.K == vIv && a.Hi < 1<<40 || b.K == vChar || b.K == vIv && b.Hi < 1<<40) {
		return fsTop
	}
	x, y, ok := r.hull(a)
	if !ok {
		return fsTop
	}
	z, w, ok := r.hull(b)
	if !ok {
		return fsTop
	}
	var lo, hi int64
	switch op {
	case token.ADD:
		lo, hi = x+z, y+w
	case token.SUB:
		lo, hi = x-w, y-z
	case token.MUL:
		if x < 0 || z < 0 {
			return fsTop
		}
		lo, hi = x*z, y*w
	case token.SHL:
		if z != w || x < 0 || z > 32 {
			return fsTop
		}
		lo, hi = x<<uint(z), y<<uint(z)
	case token.OR: // of a shifted value and a digit
		if z < 0 || x < 0 {
			return fsTop
		}
		for k := uint(0); k < 32; k++ {
			if w < 1<<k {
				if x%(1<<k) == 0 && y%(1<<k) == 0 && (y-x)%(1<<k) == 0 {
					lo, hi = x+z, y+w
					break
				}
				return fsTop
			}
		}
	default:
		return fsTop
	}
	if lo == hi {
		return fsInt(lo)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		max := int64(1)<<62 - 1
		min := -max
		switch b.Kind() {
		case types.Uint32:
			min, max = 0, 1<<32-1
		case types.Int32:
			min, max = -1<<31, 1<<31-1
		case types.Uint8:
			min, max = 0, 255
		case types.Uint16:
			min, max = 0, 1<<16-1
		case types.Uint, types.Uint64, types.Uintptr:
			min = 0
		}
		if lo < min || hi > max {
			return fsTop
		}
	}
	const big = maxRune + 1
	if lo >= big && (op == token.ADD || op == token.OR) {
		lo = big
		top := int64(1) << 20
		for top <= hi {
			top *= 2
		}
		hi = top - 1
	}
	return &fval{K: vIv, Lo: lo, Hi: hi}
}

// counterCap is where a counter stops to be exact: past the constants it is
// compared with.
func (h *fsm) counterCap(in *ssa.BinOp) int64 {
	if n, ok := h.caps[in]; ok {
		return n
	}
	lim := int64(1)
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi:
				visit(u)
			case *ssa.BinOp:
				other := u.X
				if other == v {
					other = u.Y
				}
				c, ok := other.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					lim = 12
				} else if isCmp(u.Op) {
					if n := c.Int64() + 1; n > lim {
						lim = n
					}
				} else if u.Op == token.ADD || u.Op == token.SUB {
					visit(u)
				} else {
					lim = 12
				}
			case *ssa.DebugRef:
			default:
				lim = 12
			}
		}
	}
	visit(in)
	if lim > 12 {
		lim = 12
	}
	h.caps[in] = lim
	return lim
}

func (r *frun) binop(in *ssa.BinOp, a, b *fval) *fval {
	v := r.binop1(in, a, b)
	if in.Op == token.ADD && v != nil && (v.K == vIv || v.K == vConst) {
		for _, o := range []ssa.Value{in.X, in.Y} {
			c, ok := o.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				continue
			}
			if k := c.Int64(); k < 1 || k > 4 {
				continue
			}
			lim := r.h.counterCap(in)
			if n, ok := v.intc(); ok && n > lim || v.K == vIv && v.Lo > lim {
				return &fval{K: vIv, Lo: lim + 1, Hi: 1 << 40}
			}
		}
	}
	return v
}

func (r *frun) binop1(in *ssa.BinOp, a, b *fval) *fval {
	op := in.Op
	if isCmp(op) {
		return r.compare(op, a, b, in)
	}
	if a.K == vConst && b.K == vConst && !a.N && !b.N && a.C != nil && b.C != nil {
		if a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
			switch op {
			case token.SHL, token.SHR:
				n, _ := constant.Uint64Val(b.C)
				if n < 64 {
					return fitConst(constant.Shift(a.C, op, uint(n)), in.Type())
				}
				return fsTop
			case token.QUO, token.REM:
				if constant.Sign(b.C) == 0 {
					return fsTop
				}
				if op == token.QUO {
					op = token.QUO_ASSIGN // integer division
				}
			}
			return fitConst(constant.BinaryOp(a.C, op, b.C), in.Type())
		}
		if a.C.Kind() == constant.String && op == token.ADD {
			return &fval{K: vConst, C: constant.BinaryOp(a.C, op, b.C)}
		}
	}
	if k, ok := b.intc(); ok && (op == token.ADD || op == token.SUB) {
		if op == token.SUB {
			k = -k
		}
		switch a.K {
		case vChar:
			return r.charAdd(a, k, in.Type())
		case vPos:
			if !a.N {
				if m := r.posAdd(a.M1, k); m != nil {
					return &fval{K: vPos, M1: m}
				}
			}
			return fsTop
		}
	}
	if k, ok := a.intc(); ok && op == token.ADD {
		switch b.K {
		case vChar:
			return r.charAdd(b, k, in.Type())
		case vPos:
			if !b.N {
				if m := r.posAdd(b.M1, k); m != nil {
					return &fval{K: vPos, M1: m}
				}
			}
			return fsTop
		}
	}
	if k, ok := b.intc(); ok && a.K == vChar && k >= 0 {
		switch op {
		case token.OR, token.AND, token.XOR, token.AND_NOT, token.SHR, token.QUO, token.REM:
			if (op == token.QUO || op == token.REM) && k == 0 {
				return fsTop
			}
			return charMap(a, op.String(), k)
		}
	}
	if k, ok := a.intc(); ok && b.K == vChar && k >= 0 {
		switch op {
		case token.OR, token.AND, token.XOR:
			return charMap(b, op.String(), k)
		}
	}
	switch {
	case op == token.SUB && a.K == vPos && b.K == vPos && a.N == b.N:
		return &fval{K: vDiff, M1: b.M1, M2: a.M1}
	case op == token.ADD && a.K == vPos && b.K == vDiff && a.M1 == b.M1 && !a.N:
		return &fval{K: vPos, M1: b.M2}
	case op == token.ADD && a.K == vDiff && b.K == vPos && a.M1 == b.M1 && !b.N:
		return &fval{K: vPos, M1: a.M2}
	case a.K == vPos || b.K == vPos || a.K == vDiff || b.K == vDiff:
		return fsTop
	}
	if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return r.ints(op, a, r.valOf(in.Y), in.Type())
	}
	return fsTop
}

func fitConst(c constant.Value, t types.Type) *fval {
	if n, ok := constant.Int64Val(c); ok {
		if b, isB := t.Underlying().(*types.Basic); isB {
			switch b.Kind() {
			case types.Uint32:
				n = int64(uint32(n))
			case types.Int32:
				n = int64(int32(n))
			case types.Uint8:
				n = int64(uint8(n))
			case types.Uint, types.Uint64:
				if n < 0 {
					return &fval{K: vConst, C: constant.MakeUint64(uint64(n))}
				}
			}
		}
		return fsInt(n)
	}
	return &fval{K: vConst, C: c}
}

// ---- instructions

func (r *frun) valOf(v ssa.Value) *fval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return zeroVal(v.Type())
			}
			return fsNil
		}
		c := v.Value
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			c = constant.ToInt(c)
		}
		return &fval{K: vConst, C: c}
	case *ssa.Function:
		return &fval{K: vFn, Fn: v}
	case *ssa.Global, *ssa.Builtin:
		return fsTop
	}
	if x := r.st.top().regs[v]; x != nil {
		return x
	}
	return fsTop
}

// jump enters a block.
func (r *frun) jump(f *fframe, to *ssa.BasicBlock) {
	pi := 0
	for i, p := range to.Preds {
		if p == f.b {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*fval
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, r.valOf(phi.Edges[pi]))
		n++
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	f.b, f.i = to, n
}

func (r *frun) step() {
	for {
		f := r.st.top()
		in := f.b.Instrs[f.i]
		if v, ok := in.(ssa.Value); ok {
			if c, isCall := in.(*ssa.Call); isCall {
				if r.callInstr(f, c) {
					return
				}
				f.i++
				continue
			}
			f.regs[v] = r.eval(in, f)
			f.i++
			continue
		}
		switch in := in.(type) {
		case *ssa.Store:
			r.store(r.valOf(in.Addr), r.valOf(in.Val), in.Pos())
			f.i++
		case *ssa.If:
			c := r.valOf(in.Cond)
			b, ok := c.boolc()
			if !ok {
				b = r.choose(2) == 0
				f.regs[in.Cond] = fsBool(b)
			}
			to := f.b.Succs[1]
			if b {
				to = f.b.Succs[0]
			}
			r.jump(f, to)
			return
		case *ssa.Jump:
			r.jump(f, f.b.Succs[0])
			return
		case *ssa.Return:
			var ret *fval
			switch len(in.Results) {
			case 0:
			case 1:
				ret = r.valOf(in.Results[0])
			default:
				ret = &fval{K: vTuple}
				for _, x := range in.Results {
					ret.Fs = append(ret.Fs, r.valOf(x))
				}
			}
			r.st.frames = r.st.frames[:len(r.st.frames)-1]
			if len(r.st.frames) == 0 {
				r.st.ret = ret
				return
			}
			g := r.st.top()
			if f.call != nil {
				if ret != nil {
					g.regs[f.call] = ret
				}
				g.i++
			}
			return
		case *ssa.Defer:
			fn := r.valOf(in.Call.Value)
			var args []*fval
			for _, a := range in.Call.Args {
				args = append(args, r.valOf(a))
			}
			if in.Call.IsInvoke() || fn.K != vFn {
				r.und("an unknown function is deferred")
			}
			f.defers = append(f.defers, fdefer{fn.Fn, append(args, fn.Fs...)})
			f.i++
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				r.push(d.fn, d.args, nil)
				return
			}
			f.i++
		case *ssa.MapUpdate, *ssa.DebugRef:
			f.i++
		case *ssa.Panic:
			panic(abandon{})
		default:
			r.und("instruction %T", in)
		}
	}
}

func (r *frun) push(fn *ssa.Function, args []*fval, call *ssa.Call) {
	if len(r.st.frames) > 12 || len(fn.Blocks) == 0 {
		r.und("call of %s", fn)
	}
	r.h.fns[fn] = true
	g := &fframe{fn: fn, b: fn.Blocks[0], regs: map[ssa.Value]*fval{}, call: call}
	i := 0
	for _, p := range fn.Params {
		g.regs[p] = args[i]
		i++
	}
	for _, p := range fn.FreeVars {
		g.regs[p] = args[i]
		i++
	}
	r.st.frames = append(r.st.frames, g)
}

func hasText(v *fval) bool {
	if v.K == vText || v.K == vSrc {
		return true
	}
	for _, f := range v.Fs {
		if hasText(f) {
			return true
		}
	}
	return false
}

func (r *frun) reaches(v *fval, cell *fcell) bool {
	if v == nil {
		return false
	}
	if v.Cell == cell {
		return true
	}
	if v.Cell != nil && r.reaches(r.st.cells[v.Cell], cell) {
		return true
	}
	for _, f := range v.Fs {
		if r.reaches(f, cell) {
			return true
		}
	}
	return false
}

// callInstr executes a call; it reports whether a frame was pushed.
func (r *frun) callInstr(f *fframe, c *ssa.Call) bool {
	h := r.h
	set := func(v *fval) bool { f.regs[c] = v; return false }
	var args []*fval
	for _, a := range c.Call.Args {
		args = append(args, r.valOf(a))
	}
	if c.Call.IsInvoke() {
		return set(fsTop)
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch args[0].K {
			case vSrc:
				return set(&fval{K: vPos, M1: h.end})
			case vText:
				return set(&fval{K: vDiff, M1: args[0].M1, M2: args[0].M2})
			}
			if s, ok := args[0].strc(); ok {
				return set(fsInt(int64(len(s))))
			}
		}
		return set(fsTop)
	}
	fv := r.valOf(c.Call.Value)
	switch fv.K {
	case vErrFn:
		r.st.setErr()
		r.st.note("<error>")
		if off := h.offset(r.st); off != nil && h.mon != nil {
			if mi := r.st.marks[off]; mi.mon != nil {
				mi.mon = h.settle(r.st, mi.mon)
				r.st.marks[off] = mi
			}
		}
		return false
	case vFn:
	default:
		if fv.K == vConst && fv.N {
			panic(abandon{})
		}
		r.und("call of an unknown function")
	}
	fn := fv.Fn
	switch fn.String() {
	case "(*go/token.File).Pos":
		if args[1].K == vPos && !args[1].N {
			return set(&fval{K: vPos, M1: args[1].M1, N: true})
		}
		return set(fsTop)
	case "(*go/token.File).Offset":
		if args[1].K == vPos && args[1].N {
			return set(&fval{K: vPos, M1: args[1].M1})
		}
		return set(fsTop)
	case "(*go/token.File).Size":
		return set(&fval{K: vPos, M1: h.end})
	case "unicode/utf8.DecodeRune":
		if args[0].K == vText {
			a, b := r.decode(args[0].M1)
			return set(&fval{K: vTuple, Fs: []*fval{a, b}})
		}
		return set(fsTop)
	}
	if p := h.runePred(fn); p != nil && len(args) == 1 {
		if args[0].K == vChar && args[0].Lo == 0 && args[0].S == "" {
			return set(fsBool(r.splitSet(args[0].Ch, p, p.not()) == 0))
		}
		if k, ok := args[0].intc(); ok {
			return set(fsBool(k >= 0 && k <= maxRune && p.has(rune(k))))
		}
		return set(fsTop)
	}
	if fn.String() == "bytes.ReplaceAll" || fn.String() == "bytes.Replace" || fn.String() == "strings.ReplaceAll" || fn.String() == "strings.Replace" {
		if hasText(args[0]) {
			return set(&fval{K: vApp, S: fn.String(), Fs: args, Fn: fn})
		}
	}
	inRepo := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/qiniu/text") || fn.Parent() != nil
	touches := false
	for _, a := range args {
		touches = touches || r.reaches(a, h.scanner)
	}
	for _, a := range fv.Fs {
		touches = touches || r.reaches(a, h.scanner)
	}
	if !inRepo {
		if touches {
			r.und("the scanner is handed to %s", fn)
		}
		return set(fsTop)
	}
	if !touches {
		for _, a := range args {
			if hasText(a) {
				return set(&fval{K: vApp, S: fn.String(), Fs: args, Fn: fn})
			}
		}
		// a helper on plain values
		if h.opaque(fn) {
			return set(fsTop)
		}
	}
	r.push(fn, append(args, fv.Fs...), c)
	return true
}

// opaque says that a function is not worth running: it has maps or loops over
// memory and only yields a value.
func (h *fsm) opaque(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.MakeMap, *ssa.Next:
				return true
			}
		}
	}
	return false
}

func (h *fsm) runePred(fn *ssa.Function) *cset {
	var f func(rune) bool
	switch fn.String() {
	case "unicode.IsLetter":
		f = unicode.IsLetter
	case "unicode.IsDigit":
		f = unicode.IsDigit
	case "unicode.IsNumber":
		f = unicode.IsNumber
	case "unicode.IsSpace":
		f = unicode.IsSpace
	case "unicode.IsUpper":
		f = unicode.IsUpper
	case "unicode.IsLower":
		f = unicode.IsLower
	default:
		return nil
	}
	if s := h.preds[fn.String()]; s != nil {
		return s
	}
	s := setWhere(f)
	h.preds[fn.String()] = s
	return s
}

func (r *frun) eval(in ssa.Instruction, f *fframe) *fval {
	h := r.h
	switch in := in.(type) {
	case *ssa.Alloc:
		c := &fcell{in.Comment}
		r.st.cells[c] = zeroVal(in.Type().Underlying().(*types.Pointer).Elem())
		return &fval{K: vPtr, Cell: c}
	case *ssa.BinOp:
		return r.binop(in, r.valOf(in.X), r.valOf(in.Y))
	case *ssa.UnOp:
		x := r.valOf(in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				_ = g
				return fsTop
			}
			return r.load(x)
		case token.NOT:
			if b, ok := x.boolc(); ok {
				return fsBool(!b)
			}
			return fsTop
		case token.SUB:
			if k, ok := x.intc(); ok {
				return fsInt(-k)
			}
		case token.XOR:
			if k, ok := x.intc(); ok {
				return fitConst(constant.MakeInt64(^k), in.Type())
			}
		}
		return fsTop
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		return r.valOf(*in.(ssa.Instruction).Operands(nil)[0])
	case *ssa.Convert:
		x := r.valOf(in.X)
		switch x.K {
		case vConst, vText, vPos, vDiff, vSrc, vApp:
			if x.K == vConst && x.C != nil && x.C.Kind() == constant.Int {
				if b, ok := in.Type().Underlying().(*types.Basic); ok {
					if b.Info()&types.IsString != 0 {
						k, _ := x.intc()
						return fsStr(string(rune(k)))
					}
					return fitConst(x.C, in.Type())
				}
			}
			return x
		case vChar:
			if b, ok := in.Type().Underlying().(*types.Basic); ok {
				if b.Info()&types.IsString != 0 && x.Lo == 0 && x.S == "" {
					return &fval{K: vApp, S: "string", Fs: []*fval{x}}
				}
				if b.Info()&types.IsInteger != 0 {
					return r.charFit(x, b)
				}
			}
			return fsTop
		case vIv:
			if x.Lo >= 0 && x.Hi < 1<<31 {
				return x
			}
		}
		return fsTop
	case *ssa.Extract:
		x := r.valOf(in.Tuple)
		if x.K == vTuple && in.Index < len(x.Fs) {
			return x.Fs[in.Index]
		}
		return fsTop
	case *ssa.Field:
		x := r.valOf(in.X)
		return loadPath(x, []int{in.Field})
	case *ssa.FieldAddr:
		x := r.valOf(in.X)
		if x.K == vPtr {
			return &fval{K: vPtr, Cell: x.Cell, Path: append(append([]int(nil), x.Path...), in.Field)}
		}
		return fsTop
	case *ssa.IndexAddr:
		x, i := r.valOf(in.X), r.valOf(in.Index)
		if x.K == vSrc && i.K == vPos && !i.N {
			return &fval{K: vSrcAt, M1: i.M1}
		}
		if x.K == vSrc {
			if k, ok := i.intc(); ok && k == 0 {
				return &fval{K: vSrcAt, M1: h.origin}
			}
		}
		if x.K == vPtr {
			if k, ok := i.intc(); ok {
				return &fval{K: vPtr, Cell: x.Cell, Path: append(append([]int(nil), x.Path...), int(k))}
			}
		}
		return fsTop
	case *ssa.Index:
		x, i := r.valOf(in.X), r.valOf(in.Index)
		if k, ok := i.intc(); ok {
			if s, ok := x.strc(); ok && k >= 0 && k < int64(len(s)) {
				return fsInt(int64(s[k]))
			}
			return loadPath(x, []int{int(k)})
		}
		return fsTop
	case *ssa.Slice:
		x := r.valOf(in.X)
		if x.K == vSrc || x.K == vText {
			lo, hi := &fval{K: vPos, M1: h.origin}, &fval{K: vPos, M1: h.end}
			if x.K == vText {
				lo.M1, hi.M1 = x.M1, x.M2
			}
			if in.Low != nil {
				l := r.valOf(in.Low)
				if k, ok := l.intc(); !ok || k != 0 {
					if k, ok := l.intc(); ok && x.K == vText {
						if m := r.posAdd(x.M1, k); m != nil {
							lo = &fval{K: vPos, M1: m}
						} else {
							return fsTop
						}
					} else if x.K == vText {
						return fsTop
					} else {
						lo = l
					}
				}
			}
			if in.High != nil {
				hv := r.valOf(in.High)
				if x.K == vText {
					if hv.K != vDiff || hv.M1 != x.M1 {
						return fsTop
					}
					hi = &fval{K: vPos, M1: hv.M2}
				} else {
					hi = hv
				}
			}
			if lo.K == vPos && hi.K == vPos && !lo.N && !hi.N {
				return &fval{K: vText, M1: lo.M1, M2: hi.M1}
			}
			return fsTop
		}
		return fsTop
	case *ssa.MakeClosure:
		v := &fval{K: vFn, Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.Fs = append(v.Fs, r.valOf(b))
		}
		return v
	case *ssa.Phi:
		r.und("a phi in the middle of a block")
	}
	return fsTop
}

// ---- numbers computed from a character: a chain of operations (S) and an
// offset (Lo)

var charFns sync.Map // chain -> func(int64) int64
var charCmps sync.Map

func charFn(chain string) func(int64) int64 {
	if chain == "" {
		return func(c int64) int64 { return c }
	}
	if f, ok := charFns.Load(chain); ok {
		return f.(func(int64) int64)
	}
	i := strings.LastIndexByte(chain, ';')
	up := charFn(chain[:i])
	var op string
	var k int64
	fmt.Sscanf(chain[i+1:], "%s %d", &op, &k)
	var g func(int64) int64
	switch op {
	case "+":
		g = func(c int64) int64 { return c + k }
	case "|":
		g = func(c int64) int64 { return c | k }
	case "&":
		g = func(c int64) int64 { return c & k }
	case "^":
		g = func(c int64) int64 { return c ^ k }
	case "&^":
		g = func(c int64) int64 { return c &^ k }
	case ">>":
		g = func(c int64) int64 { return c >> uint(k) }
	case "/":
		g = func(c int64) int64 { return c / k }
	case "%":
		g = func(c int64) int64 { return c % k }
	case "u": // to an unsigned type of k bits
		g = func(c int64) int64 { return c & (1<<uint(k) - 1) }
	case "i": // to a signed type of k bits
		g = func(c int64) int64 { return c << uint(64-k) >> uint(64-k) }
	default:
		panic("charFn " + chain)
	}
	f := func(c int64) int64 { return g(up(c)) }
	charFns.Store(chain, f)
	return f
}

func charMap(v *fval, op string, k int64) *fval {
	s := v.S
	if v.Lo != 0 {
		s += fmt.Sprintf(";+ %d", v.Lo)
	}
	return &fval{K: vChar, Ch: v.Ch, S: s + fmt.Sprintf(";%s %d", op, k)}
}

func charVal(v *fval, c rune) int64 { return charFn(v.S)(int64(c)) + v.Lo }

func charRange(v *fval, s *cset) (lo, hi int64) {
	if v.S == "" {
		return int64(s.min()) + v.Lo, int64(s.max()) + v.Lo
	}
	f := charFn(v.S)
	first := true
	for i := 0; i < len(s.r); i += 2 {
		for c := s.r[i]; c <= s.r[i+1]; c++ {
			x := f(int64(c)) + v.Lo
			if first || x < lo {
				lo = x
			}
			if first || x > hi {
				hi = x
			}
			first = false
		}
	}
	return
}

// charCmp are the characters for which the comparison holds.
func charCmp(v *fval, op token.Token, k int64) *cset {
	if v.S == "" {
		var t []rune
		for _, iv := range ivCut(op, 0, maxRune, k-v.Lo) {
			t = append(t, rune(iv[0]), rune(iv[1]))
		}
		return mkSet(t)
	}
	key := fmt.Sprint(v.S, "#", v.Lo, op, k)
	if s, ok := charCmps.Load(key); ok {
		return s.(*cset)
	}
	f := charFn(v.S)
	s := setWhere(func(c rune) bool { return cmpHolds(op, f(int64(c))+v.Lo, k) })
	charCmps.Store(key, s)
	return s
}

func (r *frun) charAdd(v *fval, k int64, t types.Type) *fval {
	x := &fval{K: vChar, Ch: v.Ch, S: v.S, Lo: v.Lo + k}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return r.charFit(x, b)
	}
	return fsTop
}

// charFit converts a number computed from a character to a type.
func (r *frun) charFit(v *fval, b *types.Basic) *fval {
	lo, hi := charRange(v, r.st.chars[v.Ch].set)
	bits, unsigned := int64(64), false
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, unsigned = 8, true
	case types.Uint16:
		bits, unsigned = 16, true
	case types.Uint32:
		bits, unsigned = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		unsigned = true
	}
	switch {
	case unsigned && bits == 64:
		if lo >= 0 {
			return v
		}
		return fsTop
	case unsigned:
		if lo >= 0 && hi < 1<<uint(bits) {
			return v
		}
		return charMap(v, "u", bits)
	case bits == 64 || lo >= -1<<uint(bits-1) && hi < 1<<uint(bits-1):
		return v
	}
	return charMap(v, "i", bits)
}
