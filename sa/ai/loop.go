package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header      *ssa.BasicBlock
	body        map[*ssa.BasicBlock]bool
	headerExits bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

// loopsOf finds the natural loops of a function.
func (m *Machine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := m.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range li.byHeader {
		for _, s := range l.header.Succs {
			if !l.body[s] {
				l.headerExits = true
			}
		}
	}
	m.loops[fn] = li
	return li
}

// part is one partition of a loop header.
type part struct {
	key     string
	idx     int
	env     *env
	st      *State
	syms    map[string][2]*Term // slot path -> (h, h')
	own     map[*Term]bool      // h and h' symbols
	epochs  map[string]int
	acc     map[string]*Term // slot path -> the array that stands for a slice the loop appends to
	joins   int
	pending bool
}

func (f *frame) partKey(h *ssa.BasicBlock, e *env, st *State) string {
	var sb strings.Builder
	if f.m.Key != nil {
		sb.WriteString(f.m.Key(st))
	}
	var ks []string
	for k, v := range st.Disc {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	one := func(name string, v *Term) {
		if v == nil {
			return
		}
		if isBool(v.Typ) {
			switch st.Eval(v) {
			case 1:
				sb.WriteString("|" + name + "=T")
			case -1:
				sb.WriteString("|" + name + "=F")
			}
			return
		}
		if IsNilable(v.Typ) || v.K == KNil || v.K == KIface {
			switch st.evalNil(v) {
			case 1:
				sb.WriteString("|" + name + "=N")
			case -1:
				sb.WriteString("|" + name + "=V")
			}
		}
	}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		one(p.Name(), e.v[p])
	}
	ks = ks[:0]
	for k := range st.Ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		one("g:"+k, st.Ghost[k])
	}
	var as []*Term
	for a, v := range st.Heap {
		if isBool(v.Typ) {
			as = append(as, a)
		}
	}
	sortTerms(as)
	for _, a := range as {
		if a.Birth <= f.serialOf(h) {
			one(fmt.Sprint("c", a.ID), st.Heap[a])
		}
	}
	return sb.String()
}

func (f *frame) serialOf(h *ssa.BasicBlock) int { return f.curSerial }

var actSeq int

// fixLoop solves a loop by fixpoint iteration.
func (f *frame) fixLoop(b, pred *ssa.BasicBlock, e *env, st *State, act *loopAct) {
	m := f.m
	m.Loops++
	saved := f.curSerial
	defer func() { f.curSerial = saved }()
	act.serial = Serial()
	f.curSerial = act.serial
	actSeq++
	seq := actSeq
	var order []*part
	parts := map[string]*part{}
	f.phis(b, pred, e)
	base := e
	add := func(e *env, st *State, fromBack bool) {
		f.curSerial = act.serial
		k := f.partKey(b, e, st)
		p := parts[k]
		if p == nil {
			p = &part{key: k, idx: len(order), syms: map[string][2]*Term{}, own: map[*Term]bool{}, epochs: map[string]int{}, acc: map[string]*Term{}, pending: true}
			parts[k] = p
			order = append(order, p)
			p.env = base.clone()
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				p.env.v[ph] = e.v[ph]
			}
			p.st = st.Clone()
			if fromBack {
				f.join(b, seq, act, p, e, st, true)
			}
			return
		}
		if f.join(b, seq, act, p, e, st, false) {
			p.pending = true
		}
	}
	for _, x := range splitBools(b, backState{env: e, st: st}) {
		add(x.env, x.st, false)
	}
	m.mute++
	ok := true
	for iter := 0; ; iter++ {
		var p *part
		for _, q := range order {
			if q.pending {
				p = q
				break
			}
		}
		if p == nil {
			break
		}
		if iter > 200 || len(order) > 64 {
			ok = false
			break
		}
		p.pending = false
		backs := f.runBody(b, p, act, true)
		if m.Steps > m.Budget || time.Now().After(Deadline) {
			ok = false
			break
		}
		for _, bs := range backs {
			f.phis(b, bs.pred, bs.env)
			for _, x := range splitBools(b, bs) {
				add(x.env, x.st, true)
			}
		}
	}
	m.mute--
	f.curSerial = act.serial
	if !ok {
		m.Undecide("loop at %s of %s does not stabilise", m.Prog.Fset.Position(b.Instrs[0].Pos()), f.fn)
		return
	}
	for _, p := range order {
		if os.Getenv("SA_LOOP") != "" && m.mute == 0 {
			fmt.Fprintf(os.Stderr, "--- loop %s of %s part %q\n", b, f.fn, p.key)
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					fmt.Fprintf(os.Stderr, "  phi %s %s = %s\n", ph.Name(), ph.Comment, p.env.v[ph])
				}
			}
			fmt.Fprintln(os.Stderr, p.st.Dump())
		}
		f.runBody(b, p, act, false)
		f.curSerial = act.serial
	}
}

// splitBools decides the undecided boolean header variables.
func splitBools(b *ssa.BasicBlock, bs backState) []backState {
	out := []backState{bs}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBool(ph.Type()) {
			continue
		}
		var next []backState
		for _, x := range out {
			v := x.env.v[ph]
			if v == nil || len(out) > 4 {
				next = append(next, x)
				continue
			}
			switch x.st.Eval(v) {
			case 1:
				x.env.v[ph] = Bool(true)
				next = append(next, x)
			case -1:
				x.env.v[ph] = Bool(false)
				next = append(next, x)
			default:
				for _, val := range []bool{true, false} {
					y := backState{pred: x.pred, env: x.env.clone(), st: x.st.Clone()}
					if y.st.Assume(v, val) {
						y.env.v[ph] = Bool(val)
						next = append(next, y)
					}
				}
			}
		}
		out = next
	}
	return out
}

func (f *frame) runBody(b *ssa.BasicBlock, p *part, act *loopAct, discard bool) []backState {
	n := &loopAct{l: act.l, outer: act.outer, discard: discard, serial: act.serial}
	e, st := p.env.clone(), p.st.Clone()
	if f.m.AtHeader != nil {
		f.m.AtHeader(f.m, st, b)
	}
	f.block(b, e, st, n, f.firstNonPhi(b))
	for _, bs := range n.back {
		if f.m.BackEdge != nil {
			f.m.BackEdge(f.m, bs.st, b)
		}
	}
	return n.back
}

type joiner struct {
	f      *frame
	p      *part
	seq    int
	serial int
	force  bool
	s1, s2 *State
	// per join
	list  []*joined
	pairs map[[2]*Term]*Term
	used  map[string]bool
	gone  bool
	loop  *loop
	accs  map[[2]*Term]*Term // slice values -> accumulator array
}

type joined struct {
	h      *Term // the h' symbol
	v1, v2 *Term
	path   string
}

func (j *joiner) local(t *Term) bool {
	if t == nil || t.Birth <= j.serial {
		return false
	}
	return j.hasLocal(t)
}

func (j *joiner) hasLocal(t *Term) bool {
	if t == nil || t.Birth <= j.serial {
		return false
	}
	switch t.K {
	case KSym:
		return !j.isNew(t)
	case KObj:
		for _, a := range j.p.acc {
			if a == t {
				return false
			}
		}
		return true
	}
	for _, a := range t.Args {
		if j.hasLocal(a) {
			return true
		}
	}
	if t.L != nil {
		for _, lt := range t.L.T {
			if j.hasLocal(lt.A) {
				return true
			}
		}
	}
	return false
}

// isNew: h' symbols.
func (j *joiner) isNew(t *Term) bool { return j.p.own[t] && strings.HasSuffix(t.Name, "'") }

func (j *joiner) sym(path string, typ types.Type, v1, v2 *Term) *Term {
	if h, ok := j.pairs[[2]*Term{v1, v2}]; ok {
		return h
	}
	hs, ok := j.p.syms[path]
	if !ok {
		name := fmt.Sprintf("h%d.%d.%s", j.seq, j.p.idx, path)
		hs = [2]*Term{NamedSym(name, typ), NamedSym(name+"'", typ)}
		j.p.syms[path] = hs
		j.p.own[hs[0]] = true
		j.p.own[hs[1]] = true
	}
	if j.used[path] {
		return j.sym(path+"+", typ, v1, v2)
	}
	j.used[path] = true
	h := hs[1]
	j.pairs[[2]*Term{v1, v2}] = h
	j.list = append(j.list, &joined{h, v1, v2, path})
	return h
}

func typOf(a, b *Term) types.Type {
	if a.Typ != nil && a.K != KNil && a.K != KIface {
		return a.Typ
	}
	if b.Typ != nil && b.K != KNil && b.K != KIface {
		return b.Typ
	}
	return a.Typ
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// accumulate finds the slices the loop grows by append: their memory changes
// from one iteration to the next, one array of the header stands for it.
func (j *joiner) accumulate(b *ssa.BasicBlock, e2 *env) {
	type slot struct {
		path   string
		v1, v2 *Term
	}
	var slots []slot
	one := func(path string, v1, v2 *Term) {
		if v1 == nil || v2 == nil || v1.K != KSlice && v2.K != KSlice {
			return
		}
		if !(v1.K == KSlice || v1.K == KNil || isSliceType(v1.Typ)) || !(v2.K == KSlice || v2.K == KNil || isSliceType(v2.Typ)) {
			return
		}
		if _, dup := j.accs[[2]*Term{v1, v2}]; dup {
			return
		}
		t := v1.Typ
		if v1.K != KSlice {
			t = v2.Typ
		}
		if structOf(elemOf(t)) != nil {
			return
		}
		a1, _, _, _ := j.s1.SliceParts(v1)
		a2, _, _, _ := j.s2.SliceParts(v2)
		old := j.p.acc[path]
		if old == nil {
			if a1 == a2 && !j.local(a1) {
				return
			}
			if a1.K != KObj && a2.K != KObj {
				return
			}
			if a1.K == KSym || a2.K == KSym {
				return
			}
		}
		slots = append(slots, slot{path, v1, v2})
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		one("p:"+ph.Name(), j.p.env.v[ph], e2.v[ph])
	}
	var addrs []*Term
	for a := range j.s1.Heap {
		if _, ok := j.s2.Heap[a]; ok && !j.local(a) && !j.local(Root(a)) {
			addrs = append(addrs, a)
		}
	}
	sortTerms(addrs)
	for _, a := range addrs {
		one(fmt.Sprintf("m:%d", a.ID), j.s1.Heap[a], j.s2.Heap[a])
	}
	if len(slots) == 0 {
		return
	}
	j.s1, j.s2 = j.s1.Clone(), j.s2.Clone()
	j.accs = map[[2]*Term]*Term{}
	for _, x := range slots {
		t := x.v1.Typ
		if x.v1.K != KSlice {
			t = x.v2.Typ
		}
		elem := elemOf(t)
		acc := j.p.acc[x.path]
		if acc == nil {
			acc = NewObj("acc", types.NewArray(elem, -1))
			j.p.acc[x.path] = acc
		}
		if _, dup := j.accs[[2]*Term{x.v1, x.v2}]; dup {
			continue
		}
		j.accs[[2]*Term{x.v1, x.v2}] = acc
		for i, s := range []*State{j.s1, j.s2} {
			v := x.v1
			if i == 1 {
				v = x.v2
			}
			arr, lo, n, _ := s.SliceParts(v)
			if arr == acc {
				continue
			}
			for a := range s.Heap {
				if Root(a) == acc {
					delete(s.Heap, a)
				}
			}
			delete(s.Segs, acc)
			delete(s.Dirty, acc)
			s.copyCells(acc, Int(0), arr, lo, n, elem)
		}
	}
}

// slope is the factor of a header variable in the indices the loop stores to
// (0: both signs or none occur).
func (j *joiner) slope(path string) int {
	var coef func(v ssa.Value, ph *ssa.Phi) int
	coef = func(v ssa.Value, ph *ssa.Phi) int {
		if v == ph {
			return 1
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				return coef(x.X, ph) + coef(x.Y, ph)
			case token.SUB:
				return coef(x.X, ph) - coef(x.Y, ph)
			}
		case *ssa.Convert:
			return coef(x.X, ph)
		}
		return 0
	}
	up, down := false, false
	for _, in := range j.loop.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if "p:"+ph.Name() != path {
			continue
		}
		for b := range j.loop.body {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				switch coef(a.Index, ph) {
				case 1:
					up = true
				case -1:
					down = true
				}
			}
		}
	}
	switch {
	case down && !up:
		return -1
	case up && down:
		return 0
	}
	return 1
}

// val joins two values of a slot.
func (j *joiner) val(path string, v1, v2 *Term, typ types.Type) *Term {
	if v1 == nil || v2 == nil {
		return nil
	}
	if v1 == v2 && !j.local(v1) {
		return v1
	}
	if typ == nil {
		typ = typOf(v1, v2)
	}
	if isInt(v1) && isInt(v2) {
		return j.sym(path, TInt, v1, v2)
	}
	if v1.K == KIface && v2.K == KIface && types.Identical(v1.Typ, v2.Typ) {
		return Iface(v1.Typ, j.val(path+".i", v1.Args[0], v2.Args[0], v1.Typ), nil)
	}
	if (v1.K == KSlice || v2.K == KSlice) && (isSliceType(v1.Typ) || v1.K == KNil) && (isSliceType(v2.Typ) || v2.K == KNil) {
		a1, l1, n1, c1 := j.s1.SliceParts(v1)
		a2, l2, n2, c2 := j.s2.SliceParts(v2)
		t := v1.Typ
		if v1.K != KSlice {
			t = v2.Typ
		}
		if a := j.accs[[2]*Term{v1, v2}]; a != nil {
			return SliceT(t, a, Int(0), j.val(path+".n", n1, n2, TInt), j.val(path+".c", c1, c2, TInt))
		}
		return SliceT(t, j.val(path+".a", a1, a2, nil), j.val(path+".o", l1, l2, TInt), j.val(path+".n", n1, n2, TInt), j.val(path+".c", c1, c2, TInt))
	}
	if v1.K == v2.K && len(v1.Args) == len(v2.Args) && len(v1.Args) > 0 && v1.Name == v2.Name && v1.Idx == v2.Idx && v1.Fn == v2.Fn && v1.L == nil {
		switch v1.K {
		case KStruct, KTuple, KClosure, KFieldAddr, KIndexAddr, KApp:
			if v1.K == KApp && (isBool(v1.Typ) || v1.Name == "load") {
				break
			}
			if v1.K == KApp && !types.Identical(v1.Typ, v2.Typ) {
				break
			}
			args := make([]*Term, len(v1.Args))
			for i := range args {
				var at types.Type
				if v1.K == KStruct {
					if st := structOf(v1.Typ); st != nil {
						at = st.Field(i).Type()
					}
				}
				args[i] = j.val(fmt.Sprintf("%s.%d", path, i), v1.Args[i], v2.Args[i], at)
			}
			m := map[*Term]*Term{}
			_ = m
			return rebuild(v1, args)
		}
	}
	return j.sym(path, typ, v1, v2)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.K {
	case KClosure:
		return Closure(t.Fn, args)
	case KFieldAddr:
		return FieldAddr(args[0], t.Idx, t.Typ)
	case KIndexAddr:
		return IndexAddr(args[0], args[1], t.Typ)
	case KStruct:
		return StructT(t.Typ, args)
	case KTuple:
		return Tuple(args...)
	case KMapCell:
		return MapCell(args[0], args[1], t.Typ)
	case KSlice:
		return SliceT(t.Typ, args[0], args[1], args[2], args[3])
	case KIface:
		return Iface(t.Typ, args[0], nil)
	case KApp:
		return App(t.Name, t.Typ, args...)
	}
	return t
}

func (s *LinSys) atoms() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	do := func(l *Lin) {
		for _, lt := range l.T {
			if !seen[lt.A] {
				seen[lt.A] = true
				out = append(out, lt.A)
			}
		}
	}
	for _, r := range s.rowsEq() {
		do(r)
	}
	for _, r := range s.ineq {
		do(r)
	}
	sortTerms(out)
	return out
}

// join merges a state into a partition; reports whether it changed.
func (f *frame) join(b *ssa.BasicBlock, seq int, act *loopAct, p *part, e2 *env, s2 *State, force bool) bool {
	j := &joiner{f: f, p: p, seq: seq, serial: act.serial, force: force, s1: p.st, s2: s2, pairs: map[[2]*Term]*Term{}, used: map[string]bool{}, loop: act.l}
	j.accumulate(b, e2)
	p.joins++
	s1, s2 := j.s1, j.s2
	out := NewState()
	out.Trace = s1.Trace
	for k, v := range s1.Panics {
		out.Panics[k] = v
	}
	for k, v := range s1.Disc {
		out.Disc[k] = v
	}
	// slots
	nphi := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi[ph] = j.val("p:"+ph.Name(), p.env.v[ph], e2.v[ph], ph.Type())
	}
	var gk []string
	for k := range s1.Ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if v2, ok := s2.Ghost[k]; ok {
			out.Ghost[k] = j.val("g:"+k, s1.Ghost[k], v2, nil)
		}
	}
	// heap
	cells := map[*Term]bool{}
	for a := range s1.Heap {
		cells[a] = true
	}
	for a := range s2.Heap {
		cells[a] = true
	}
	var addrs []*Term
	for a := range cells {
		addrs = append(addrs, a)
	}
	sortTerms(addrs)
	dirty := map[*Term]bool{}
	lifted := map[*Term]bool{}
	for _, a := range addrs {
		root := Root(a)
		if j.local(root) {
			continue
		}
		if a.K == KIndexAddr && a.Args[0] == root && root.K == KObj {
			lifted[root] = true // arrays handled below
			continue
		}
		if j.local(a) {
			if root.K == KObj {
				dirty[root] = true
			}
			continue
		}
		et := deref(a.Typ)
		_, ok1 := s1.Heap[a]
		_, ok2 := s2.Heap[a]
		if a.K == KMapCell && (!ok1 || !ok2) {
			if root.K == KObj {
				dirty[root] = true
			}
			continue
		}
		if (!ok1 || !ok2) && root.K != KObj && root.K != KGlobal {
			continue // the region epoch differs, later reads are fresh
		}
		v1, v2 := s1.Load(a, et), s2.Load(a, et)
		out.Heap[a] = j.val(fmt.Sprintf("m:%d", a.ID), v1, v2, et)
	}
	for r := range s1.Segs {
		lifted[r] = true
	}
	for r := range s2.Segs {
		if !j.local(r) {
			lifted[r] = true
		}
	}
	var roots []*Term
	for r := range lifted {
		roots = append(roots, r)
	}
	sortTerms(roots)
	type arrayPlan struct {
		root *Term
		segs []Seg // over h'
		ok   bool
	}
	// plain array cells with loop-independent index present in both
	var segOut []arrayPlan
	for _, r := range roots {
		plan := arrayPlan{root: r, ok: true}
		var extra []*Term // cells of s2 with local index
		var first *Term   // the cell the first iteration wrote
		nFirst := 0
		for _, a := range addrs {
			if a.K == KIndexAddr && a.Args[0] == r && a.Args[1].K == KConst && !j.local(a) {
				_, ok1 := s1.Heap[a]
				_, ok2 := s2.Heap[a]
				if ok2 && !ok1 {
					first = a
					nFirst++
				}
			}
		}
		var firstSegs []Seg
		var absorbed map[*Term]bool
		if at, ok := r.Typ.(*types.Pointer); ok && nFirst == 1 {
			if at, ok := at.Elem().(*types.Array); ok && at.Len() < 0 {
				if sg, ok := f.liftSegs(j, r, []*Term{first}); ok {
					firstSegs = sg
					absorbed = j.absorb(r, &firstSegs[len(firstSegs)-1], first)
				}
			}
		}
		for _, a := range addrs {
			if !(a.K == KIndexAddr && a.Args[0] == r) {
				continue
			}
			if firstSegs != nil && (a == first || absorbed[a]) {
				continue
			}
			et := deref(a.Typ)
			_, ok1 := s1.Heap[a]
			_, ok2 := s2.Heap[a]
			if j.local(a) || a.Args[1].K != KConst && !(ok1 && ok2) {
				if ok2 {
					extra = append(extra, a)
				} else if ok1 && !j.local(a) {
					extra = append(extra, a)
				}
				continue
			}
			v1, v2 := s1.Load(a, et), s2.Load(a, et)
			out.Heap[a] = j.val(fmt.Sprintf("m:%d", a.ID), v1, v2, et)
		}
		var segs []Seg
		ok := false
		if firstSegs != nil {
			segs, ok = firstSegs, len(extra) == 0
		} else {
			segs, ok = f.liftSegs(j, r, extra)
		}
		if !ok {
			plan.ok = false
			dirty[r] = true
			// known constant cells might have been overwritten by symbolic stores: Load already accounted for it
		} else {
			plan.segs = segs
		}
		segOut = append(segOut, plan)
	}
	for r, d := range s1.Dirty {
		out.Dirty[r] = d
	}
	for r, d := range s2.Dirty {
		if !j.local(r) && d > 0 {
			out.Dirty[r] = 1
		}
	}
	for r := range dirty {
		out.Dirty[r] = 1
	}
	// epochs
	eks := map[string]bool{}
	for k := range s1.Epochs {
		eks[k] = true
	}
	for k := range s2.Epochs {
		eks[k] = true
	}
	changed := false
	for k := range eks {
		a, bb := s1.Epochs[k], s2.Epochs[k]
		if a == bb && !j.local(epochSym0(a)) {
			if a != 0 {
				out.Epochs[k] = a
			}
			continue
		}
		if ep, ok := p.epochs[k]; ok {
			out.Epochs[k] = ep
		} else {
			ep := out.nextEpoch()
			p.epochs[k] = ep
			p.own[epochSym(ep)] = true
			out.Epochs[k] = ep
			changed = true
		}
		if out.Epochs[k] != a {
			changed = true
		}
	}
	// linear part
	inv := func(n int) []map[*Term]*Term {
		all := map[*Term]*Term{}
		var ms []map[*Term]*Term
		for _, x := range j.list {
			v := x.v1
			if n == 2 {
				v = x.v2
			}
			if v.K == KConst || v.K == KNil {
				continue
			}
			if _, dup := all[v]; !dup {
				all[v] = x.h
			} else {
				ms = append(ms, map[*Term]*Term{v: x.h})
			}
		}
		return append([]map[*Term]*Term{all}, ms...)
	}
	invs := [2][]map[*Term]*Term{inv(1), inv(2)}
	build := func(s *State, n int) *LinSys {
		sys := s.Lin.Clone()
		for _, x := range j.list {
			v := x.v1
			if n == 1 {
				v = x.v2
			}
			if isInt(v) {
				sys.AddEQ0(LinOf(v).add(LinOf(x.h), RI(-1)))
			} else if isSliceType(v.Typ) || isString(v.Typ) {
				if !isSliceType(x.h.Typ) && !isString(x.h.Typ) {
					continue
				}
				sys.AddEQ0(LinOf(s.Len(v)).add(LinOf(LenAtom(x.h)), RI(-1)))
				sys.AddGE0(LinOf(LenAtom(x.h)))
			}
		}
		for _, a := range sys.atoms() {
			if a.K != KApp {
				continue
			}
			for _, im := range invs[n] {
				a2 := Subst(a, im)
				if a2 != a && !j.hasLocal(a2) && a2.K == KApp {
					sys.AddEQ0(LinOf(a2).add(LinOf(a), RI(-1)))
				}
			}
		}
		return sys
	}
	sys1, sys2 := build(s1, 0), build(s2, 1)
	drop := func(t *Term) bool { return j.hasLocal(t) }
	e1, e2s := sys1.eliminate(drop), sys2.eliminate(drop)
	for _, r := range affineHull(e1, e2s) {
		out.Lin.AddEQ0(r)
	}
	cand := func(l *Lin) {
		if e1.EntailsGE0(l) && e2s.EntailsGE0(l) {
			out.Lin.AddGE0(l)
		}
	}
	for _, q := range e1.ineq {
		cand(q)
	}
	for _, r := range e1.rowsEq() {
		cand(r)
		cand(r.scale(RI(-1)))
	}
	// when an equality is lost, inequalities that followed from it are lost too
	if p.joins <= 4 || len(out.Lin.rowsEq()) < len(e1.rowsEq()) {
		for _, q := range e2s.ineq {
			cand(q)
		}
		for _, r := range e2s.rowsEq() {
			cand(r)
			cand(r.scale(RI(-1)))
		}
		for _, x := range j.list {
			if isInt(x.v1) {
				cand(LinOf(x.h))
				cand(LinOf(x.h).add(linConst(1), RI(1)))
			}
		}
		// octagon-like templates against lengths and other header integers
		var others []*Term
		seen := map[*Term]bool{}
		for _, sys := range []*LinSys{e1, e2s} {
			for _, a := range sys.atoms() {
				if !seen[a] && !drop(a) && len(others) < 24 {
					seen[a] = true
					others = append(others, a)
				}
			}
		}
		n := 0
		for _, x := range j.list {
			if !isInt(x.v1) || n > 12 {
				continue
			}
			n++
			for _, a := range others {
				if a == x.h {
					continue
				}
				d := LinOf(a).add(LinOf(x.h), RI(-1))
				cand(d.add(linConst(1), RI(-1)))
				cand(d)
				cand(d.add(linConst(1), RI(1)))
			}
		}
	}
	for _, q := range append(append([]*Lin(nil), s1.Lin.neq...), s2.Lin.neq...) {
		bad := false
		for _, lt := range q.T {
			if j.hasLocal(lt.A) {
				bad = true
			}
		}
		if !bad && e1.EntailsNE0(q) && e2s.EntailsNE0(q) {
			out.Lin.AddNE0(q)
		}
	}
	for _, x := range j.list {
		if isInt(x.v1) && !e1.bad && !e2s.bad {
			l := LinOf(x.h)
			if !out.Lin.EntailsNE0(l) && sys1.EntailsNE0(l) && sys2.EntailsNE0(l) {
				out.Lin.AddNE0(l)
			}
		}
	}
	// facts
	fw := [2]map[*Term]*Term{{}, {}}
	for _, x := range j.list {
		fw[0][x.h] = x.v1
		fw[1][x.h] = x.v2
	}
	holds := func(c *Term, v bool) bool {
		for n, s := range []*State{s1, s2} {
			ev := s.Eval(reeval(s, Subst(c, fw[n])))
			if v && ev <= 0 || !v && ev >= 0 {
				return false
			}
		}
		return true
	}
	try := func(c *Term, v bool) {
		if _, done := out.Facts[c]; done || j.hasLocal(c) {
			return
		}
		if holds(c, v) {
			out.Facts[c] = v
		}
	}
	for n, s := range []*State{s1, s2} {
		for c, v := range s.Facts {
			if !j.hasLocal(c) {
				try(c, v)
			}
			for _, im := range invs[n] {
				if c2 := Subst(c, im); c2 != c && !j.hasLocal(c2) {
					try(c2, v)
				}
			}
		}
	}
	for _, x := range j.list {
		if isBool(x.h.Typ) {
			continue
		}
		if IsNilable(x.h.Typ) || x.v1.K == KIface || x.v2.K == KIface {
			if s1.evalNil(x.v1) < 0 && s2.evalNil(x.v2) < 0 {
				out.Facts[App("isnil", TBool, x.h)] = false
			}
			if s1.evalNil(x.v1) > 0 && s2.evalNil(x.v2) > 0 {
				out.Facts[App("isnil", TBool, x.h)] = true
			}
			t1, t2 := s1.KnownType(x.v1), s2.KnownType(x.v2)
			if t1 != nil && t2 != nil && types.Identical(t1, t2) {
				out.Facts[TypeIs(x.h, t1)] = true
			}
		}
	}
	for _, pl := range segOut {
		if pl.ok && len(pl.segs) > 0 {
			out.Segs[pl.root] = pl.segs
		}
	}
	// rename h' -> h
	ren := map[*Term]*Term{}
	for _, x := range j.list {
		ren[x.h] = p.syms[x.path][0]
	}
	res := out.rename(ren)
	nenv := p.env.clone()
	for ph, v := range nphi {
		nenv.v[ph] = Subst(v, ren)
	}
	// changed?
	if !changed {
		for ph := range nphi {
			if nenv.v[ph] != p.env.v[ph] {
				changed = true
			}
		}
	}
	if !changed {
		changed = stateDiffers(s1, res)
	}
	if joinTrace {
		fmt.Fprintf(os.Stderr, "join part %d %q joins=%d changed=%v %s\n", p.idx, p.key, p.joins, changed, stateDiff(s1, res))
		if p.joins > 20 {
			fmt.Fprintf(os.Stderr, "OLD %s\nIN %s\nNEW %s\n", s1.Dump(), s2.Dump(), res.Dump())
		}
	}
	p.env, p.st = nenv, res
	return changed
}

var joinTrace = os.Getenv("SA_JOIN") != ""

func epochSym0(ep int) *Term {
	if ep == 0 {
		return Int(0)
	}
	return epochSym(ep)
}

// reeval re-normalises predicates after substitution.
func reeval(s *State, c *Term) *Term {
	if c.K == KApp {
		switch c.Name {
		case "isnil":
			return s.IsNil(c.Args[0])
		case "eq":
			return s.Eq(c.Args[0], c.Args[1])
		case "not":
			return Not(reeval(s, c.Args[0]))
		}
	}
	return c
}

func stateDiffers(a, b *State) bool { return stateDiff(a, b) != "" }

func stateDiff(a, b *State) string {
	for k, v := range a.Heap {
		if b.Heap[k] != v {
			return fmt.Sprintf("heap %v: %v -> %v", k, v, b.Heap[k])
		}
	}
	for k, v := range a.Ghost {
		if b.Ghost[k] != v {
			return fmt.Sprintf("ghost %v: %v -> %v", k, v, b.Ghost[k])
		}
	}
	for k, v := range a.Facts {
		if w, ok := b.Facts[k]; !ok || w != v {
			return fmt.Sprintf("fact %v=%v lost", k, v)
		}
	}
	for _, r := range a.Lin.rowsEq() {
		if !b.Lin.EntailsEQ0(r) {
			return fmt.Sprintf("eq %v lost", r)
		}
	}
	for _, q := range a.Lin.ineq {
		if !b.Lin.EntailsGE0(q) {
			return fmt.Sprintf("ineq %v lost", q)
		}
	}
	for _, q := range a.Lin.neq {
		if !b.Lin.EntailsNE0(q) {
			return fmt.Sprintf("neq %v lost", q)
		}
	}
	for k, v := range b.Dirty {
		if (v > 0) != (a.Dirty[k] > 0) {
			return fmt.Sprintf("dirty %v", k)
		}
	}
	for k, v := range a.Segs {
		w := b.Segs[k]
		if len(v) != len(w) {
			return fmt.Sprintf("segs len %v", k)
		}
		for i := range v {
			if v[i] != w[i] {
				return fmt.Sprintf("seg %v: %v -> %v", k, v[i], w[i])
			}
		}
	}
	for k := range b.Segs {
		if _, ok := a.Segs[k]; !ok {
			return fmt.Sprintf("new seg %v", k)
		}
	}
	return ""
}

func (s *State) rename(m map[*Term]*Term) *State {
	if len(m) == 0 {
		return s
	}
	n := NewState()
	n.Trace, n.Panics, n.Disc, n.Epochs, n.Dirty = s.Trace, s.Panics, s.Disc, s.Epochs, s.Dirty
	for a, v := range s.Heap {
		n.Heap[Subst(a, m)] = Subst(v, m)
	}
	for k, v := range s.Ghost {
		n.Ghost[k] = Subst(v, m)
	}
	for c, v := range s.Facts {
		n.Facts[Subst(c, m)] = v
	}
	sl := func(l *Lin) *Lin {
		r := &Lin{K: l.K}
		for _, lt := range l.T {
			r = r.add(LinOf(Subst(lt.A, m)), lt.C)
		}
		return r
	}
	for _, r := range s.Lin.rowsEq() {
		n.Lin.AddEQ0(sl(r))
	}
	for _, q := range s.Lin.ineq {
		n.Lin.AddGE0(sl(q))
	}
	for _, q := range s.Lin.neq {
		n.Lin.AddNE0(sl(q))
	}
	for r, sg := range s.Segs {
		o := make([]Seg, len(sg))
		for i, x := range sg {
			x.Lo, x.Hi = Subst(x.Lo, m), Subst(x.Hi, m)
			if x.Tmpl != nil {
				x.Tmpl = Subst(x.Tmpl, m)
			}
			o[i] = x
		}
		n.Segs[r] = o
	}
	return n
}

// liftSegs generalises array cells written by the loop into segments.
func (f *frame) liftSegs(j *joiner, r *Term, extra []*Term) ([]Seg, bool) {
	segs1, segs2 := j.s1.Segs[r], j.s2.Segs[r]
	if len(extra) == 0 {
		if len(segs1) != len(segs2) {
			return nil, false
		}
		out := make([]Seg, len(segs1))
		for i := range segs1 {
			a, b := segs1[i], segs2[i]
			if a.View != b.View || a.Off != b.Off || a.Epoch != b.Epoch || a.Tmpl != b.Tmpl {
				return nil, false
			}
			a.Lo = j.val(fmt.Sprintf("s:%d.%d.lo", r.ID, i), a.Lo, b.Lo, TInt)
			a.Hi = j.val(fmt.Sprintf("s:%d.%d.hi", r.ID, i), a.Hi, b.Hi, TInt)
			if a.Tmpl != nil && j.hasLocal(a.Tmpl) {
				return nil, false
			}
			out[i] = a
		}
		return out, true
	}
	if len(extra) != 1 {
		return nil, false
	}
	c := extra[0]
	idx := c.Args[1]
	v, ok := j.s2.Heap[c]
	if !ok {
		return nil, false
	}
	if len(segs2) > len(segs1) {
		return nil, false
	}
	// an existing segment grows by this cell
	for i, sg := range segs2 {
		if sg.Tmpl == nil || i >= len(segs1) || segs1[i].Tmpl != sg.Tmpl {
			continue
		}
		up := j.s2.EQ(idx, sg.Hi)
		down := j.s2.EQ(AddK(idx, 1), sg.Lo)
		if !up && !down {
			continue
		}
		if !j.s2.Same(Subst(sg.Tmpl, map[*Term]*Term{Kappa(): idx}), v) {
			continue
		}
		out := make([]Seg, len(segs1))
		for k := range segs1 {
			a, b := segs1[k], segs2[k]
			if a.View != b.View || a.Off != b.Off || a.Tmpl != b.Tmpl {
				return nil, false
			}
			if k == i {
				if up {
					b.Hi = AddK(b.Hi, 1)
				} else {
					b.Lo = AddK(b.Lo, -1)
				}
			}
			a.Lo = j.val(fmt.Sprintf("s:%d.%d.lo", r.ID, k), a.Lo, b.Lo, TInt)
			a.Hi = j.val(fmt.Sprintf("s:%d.%d.hi", r.ID, k), a.Hi, b.Hi, TInt)
			out[k] = a
		}
		return out, true
	}
	if len(segs1) != len(segs2) {
		return nil, false
	}
	// a new segment: find a header integer that moves by one
	for _, x := range append([]*joined(nil), j.list...) {
		if !isInt(x.v1) || !isInt(x.v2) {
			continue
		}
		// direction: is this the first join (v2 = v1 +- 1)?
		d := LinOf(x.v2).add(LinOf(x.v1), RI(-1))
		if !d.isConst() || !(d.K.Is(1) || d.K.Is(-1)) {
			continue
		}
		// idx = sl*v1 + off, v1 being the value at the iteration start
		sl := j.slope(x.path)
		if sl == 0 {
			continue
		}
		off := LinOf(idx).add(LinOf(x.v1), RI(int64(-sl)))
		if j.hasLocal(LinTerm(off)) {
			continue
		}
		tm := j.generalise(v, x, idx, sl, off)
		if tm == nil {
			continue
		}
		// holds only when v2's cell is reproduced
		if !j.s2.Same(Subst(tm, map[*Term]*Term{Kappa(): idx}), v) || j.hasLocal(tm) {
			continue
		}
		out := append([]Seg(nil), segs1...)
		for k := range out {
			if segs1[k] != segs2[k] {
				return nil, false
			}
		}
		ns := Seg{Tmpl: tm}
		at := func(v *Term, k int64) *Term {
			return AddK(LinTerm(off.add(LinOf(v), RI(int64(sl)))), k)
		}
		if d.K.Is(int64(sl)) {
			ns.Lo = at(x.v1, 0)
			ns.Hi = at(x.h, 0)
		} else {
			ns.Lo = at(x.h, 1)
			ns.Hi = at(x.v1, 1)
		}
		if j.hasLocal(ns.Lo) || j.hasLocal(ns.Hi) {
			continue
		}
		return append(out, ns), true
	}
	return nil, false
}

// absorb extends a new segment over the cells that iterations unrolled before
// wrote, where these follow the same rule.
func (j *joiner) absorb(r *Term, sg *Seg, first *Term) map[*Term]bool {
	out := map[*Term]bool{}
	if sg.Tmpl == nil {
		return out
	}
	for {
		lo, ok := IntVal(sg.Lo)
		if !ok || lo < 1 {
			return out
		}
		a := IndexAddr(r, Int(lo-1), first.Typ)
		v1, ok1 := j.s1.Heap[a]
		v2, ok2 := j.s2.Heap[a]
		if !ok1 || !ok2 {
			return out
		}
		v := Subst(sg.Tmpl, map[*Term]*Term{Kappa(): Int(lo - 1)})
		if !j.s1.Same(v1, v) || !j.s2.Same(v2, v) {
			return out
		}
		sg.Lo = Int(lo - 1)
		out[a] = true
	}
}

// generalise rewrites v with the index replaced by κ.
func (j *joiner) generalise(v *Term, x *joined, idx *Term, sl int, off *Lin) *Term {
	base := x.v1
	if base.K != KConst {
		if base.K == KLin {
			return nil
		}
		// v1 = sl*(κ - off)
		return Subst(v, map[*Term]*Term{base: LinTerm(LinOf(Kappa()).add(off, RI(-1)).scale(RI(int64(sl))))})
	}
	// the first iteration starts at a constant: integer arguments of addresses
	// move with the index
	d := Sub(Kappa(), idx)
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			if isInt(a) && (t.K == KIndexAddr && i == 1 || t.K == KApp && t.Name == "strat" && i == 1 || t.K == KApp && t.Name == "operand" && i == 0) {
				args[i] = Add(d, a)
				continue
			}
			args[i] = rec(a)
		}
		return rebuild(t, args)
	}
	return rec(v)
}

// LinTerm is the integer term of a linear form.
func LinTerm(l *Lin) *Term { return linTerm(l, TInt) }
