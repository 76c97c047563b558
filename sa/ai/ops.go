package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Absent marks a deleted map entry.
func Absent() *Term { return NamedSym("absent", TInt) }

// ---- maps

// mapKeys returns the known entries of a fully known fresh map.
func (s *State) mapKeys(m *Term) ([]*Term, bool) {
	if m.K == KNil {
		return nil, true
	}
	if m.K != KObj || s.Dirty[m] > 0 {
		return nil, false
	}
	var out []*Term
	for a, v := range s.Heap {
		if a.K == KMapCell && a.Args[0] == m && v != Absent() {
			if a.Args[1].K != KConst {
				return nil, false
			}
			out = append(out, a.Args[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Val.ExactString() < out[j].Val.ExactString() })
	return out, true
}

func mapTypes(t types.Type) (k, v types.Type) {
	if t == nil {
		return TString, TAny
	}
	t = derefMap(t)
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key(), m.Elem()
	}
	return TString, TAny
}

func derefMap(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Map); ok {
			return p.Elem()
		}
	}
	return t
}

// MapLookup returns the possible results of m[key]: each outcome has Ret =
// (value, present).
func (s *State) MapLookup(m, key *Term, mt types.Type) []Outcome {
	_, vt := mapTypes(mt)
	miss := func(st *State) Outcome { return Outcome{St: st, Ret: Tuple(Zero(vt), Bool(false))} }
	hit := func(st *State, v *Term) Outcome { return Outcome{St: st, Ret: Tuple(v, Bool(true))} }
	if m.K == KNil {
		return []Outcome{miss(s)}
	}
	cell := MapCell(m, key, types.NewPointer(vt))
	if v, ok := s.Heap[cell]; ok {
		if v == Absent() {
			return []Outcome{miss(s)}
		}
		return []Outcome{hit(s, v)}
	}
	amb := false
	for a, v := range s.Heap {
		if a.K != KMapCell || a.Args[0] != m {
			continue
		}
		if s.mustEqual(a.Args[1], key) {
			if v == Absent() {
				return []Outcome{miss(s)}
			}
			return []Outcome{hit(s, v)}
		}
		if s.mayEqual(a.Args[1], key) {
			amb = true
		}
	}
	if m.K == KObj && s.Dirty[m] == 0 && !amb {
		return []Outcome{miss(s)}
	}
	s2 := s.Clone()
	var v *Term
	if m.K == KObj || amb {
		v = s.intro(NewSym("mapval", vt))
	} else {
		v = s.loadAt(cell, vt, s.Epochs[regionKey(cell)])
	}
	s.Heap[cell] = v
	s2.Heap[cell] = Absent()
	return []Outcome{hit(s, v), miss(s2)}
}

// MapStore performs m[key] = v.
func (s *State) MapStore(m, key, v *Term, mt types.Type) {
	_, vt := mapTypes(mt)
	cell := MapCell(m, key, types.NewPointer(vt))
	for a := range s.Heap {
		if a == cell || a.K != KMapCell {
			continue
		}
		if a.Args[0] == m {
			if s.mustEqual(a.Args[1], key) {
				delete(s.Heap, a)
			} else if s.mayEqual(a.Args[1], key) {
				s.Heap[a] = s.intro(NewSym("mapval", vt))
			}
			continue
		}
		if s.mayAlias(a, cell) {
			if isFresh(a) {
				s.Heap[a] = s.intro(NewSym("mapval", vt))
			} else {
				delete(s.Heap, a)
			}
		}
	}
	if m.K != KObj {
		k := regionKey(cell)
		s.Epochs[k] = s.nextEpoch()
	}
	s.Heap[cell] = v
}

func (f *frame) mapUpdate(m, k, v *Term, in *ssa.MapUpdate, st *State) {
	if f.m.OnStore != nil {
		f.m.OnStore(f.m, st, MapCell(m, k, types.NewPointer(v2t(v, in))), v, in)
	}
	st.MapStore(m, k, v, in.Map.Type())
}

func v2t(v *Term, in *ssa.MapUpdate) types.Type { return in.Value.Type() }

// lookup interprets a map lookup or string index; reports whether it took
// over control (forked).
func (f *frame) lookup(in *ssa.Lookup, b *ssa.BasicBlock, e *env, st *State, act *loopAct, i int) bool {
	x, k := f.val(e, in.X), f.val(e, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		e.v[in] = st.StrAt(x, k, in.Type())
		return false
	}
	if f.m.OnLoad != nil {
		f.m.OnLoad(f.m, st, MapCell(x, k, types.NewPointer(TAny)), in)
	}
	outs := st.MapLookup(x, k, in.X.Type())
	for n := range outs {
		if !in.CommaOk {
			outs[n].Ret = outs[n].Ret.Args[0]
		}
	}
	if len(outs) == 1 {
		e.v[in] = outs[0].Ret
		return false
	}
	f.cont(outs, in, b, e, act, i)
	return true
}

// ---- ranges

func (f *frame) startRange(in *ssa.Range, e *env, st *State) {
	st.Ghost["range:"+e.v[in].Name] = Int(0)
	if x := f.val(e, in.X); st.Ghost[witKey(x)] != nil {
		st.Ghost[visKey(x)] = Bool(false)
	}
}

func witKey(m *Term) string { return fmt.Sprintf("wit:%d", m.ID) }
func visKey(m *Term) string { return fmt.Sprintf("vis:%d", m.ID) }

// SetWitness singles out one entry of a map with unknown contents: every
// complete range over the map visits it.
func (s *State) SetWitness(m, key, v *Term, mt types.Type) {
	_, vt := mapTypes(mt)
	s.Heap[MapCell(m, key, types.NewPointer(vt))] = v
	s.Ghost[witKey(m)] = key
	s.Ghost[visKey(m)] = Bool(false)
}

// MapHas tells whether the map is known to have the key (1), known not to
// have it (-1) or neither (0); v is the value.
func (s *State) MapHas(m, key *Term, mt types.Type) (has int, v *Term) {
	outs := s.Clone().MapLookup(m, key, mt)
	if len(outs) != 1 {
		return 0, nil
	}
	if b, _ := BoolVal(outs[0].Ret.Args[1]); b {
		return 1, outs[0].Ret.Args[0]
	}
	return -1, nil
}

// SetAbsent records that a map lacks a key.
func (s *State) SetAbsent(m, key *Term, mt types.Type) {
	_, vt := mapTypes(mt)
	s.Heap[MapCell(m, key, types.NewPointer(vt))] = Absent()
}

func (f *frame) rangeOf(in *ssa.Next, e *env) (rg *ssa.Range, obj *Term, x *Term) {
	rg, _ = in.Iter.(*ssa.Range)
	if rg == nil {
		return nil, nil, nil
	}
	return rg, f.val(e, rg), f.val(e, rg.X)
}

func (f *frame) nextDecided(in *ssa.Next, e *env, st *State) bool {
	rg, obj, x := f.rangeOf(in, e)
	if rg == nil {
		return false
	}
	pos, ok := st.Ghost["range:"+obj.Name]
	if !ok {
		return false
	}
	if _, ok := IntVal(pos); !ok {
		return false
	}
	if in.IsString {
		_, ok := StrVal(x)
		return ok
	}
	_, known := st.mapKeys(x)
	return known
}

func (f *frame) nextKnown(in *ssa.Next, e *env, st *State) {
	_, obj, x := f.rangeOf(in, e)
	pos, _ := IntVal(st.Ghost["range:"+obj.Name])
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		s, _ := StrVal(x)
		rest := s[pos:]
		if rest == "" {
			e.v[in] = Tuple(Bool(false), Int(0), Int(0))
			return
		}
		for i, r := range rest {
			if i == 0 {
				n := len(string(r))
				e.v[in] = Tuple(Bool(true), Int(pos), ConstT(constInt(int64(r)), tt.At(2).Type()))
				st.Ghost["range:"+obj.Name] = Int(pos + int64(n))
				return
			}
		}
		return
	}
	keys, _ := st.mapKeys(x)
	if int(pos) >= len(keys) {
		e.v[in] = Tuple(Bool(false), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type()))
		return
	}
	k := keys[pos]
	_, vt := mapTypes(in.Iter.(*ssa.Range).X.Type())
	v := st.Load(MapCell(x, k, types.NewPointer(vt)), vt)
	st.Ghost["range:"+obj.Name] = Int(pos + 1)
	e.v[in] = Tuple(Bool(true), k, v)
}

func zeroOf(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Int(0)
	}
	return Zero(t)
}

func (f *frame) next(in *ssa.Next, b *ssa.BasicBlock, e *env, st *State, act *loopAct, i int) {
	if f.nextDecided(in, e, st) {
		f.nextKnown(in, e, st)
		f.block(b, e, st, act, i+1)
		return
	}
	rg, _, x := f.rangeOf(in, e)
	if rg == nil {
		f.m.Undecide("range in %s", f.fn)
		return
	}
	ok := NewSym("ok", TBool)
	if in.IsString {
		k := NewSym("i", TInt)
		st.Lin.AddGE0(LinOf(k))
		r := NewSym("r", types.Typ[types.Rune])
		st.Lin.AddGE0(LinOf(r))
		e.v[in] = Tuple(ok, k, r)
		f.block(b, e, st, act, i+1)
		return
	}
	kt, vt := mapTypes(rg.X.Type())
	if keys, known := st.mapKeys(x); known && len(keys) == 0 {
		e.v[in] = Tuple(Bool(false), Zero(kt), Zero(vt))
		f.block(b, e, st, act, i+1)
		return
	}
	wit := st.Ghost[witKey(x)]
	vis := false
	if wit != nil {
		vis, _ = BoolVal(st.Ghost[visKey(x)])
		if !vis {
			s2, e2 := st.Clone(), e.clone()
			e2.v[in] = Tuple(Bool(true), wit, s2.Heap[MapCell(x, wit, types.NewPointer(vt))])
			s2.Ghost[visKey(x)] = Bool(true)
			f.block(b, e2, s2, act, i+1)
		}
	}
	// one more entry
	s2, e2 := st.Clone(), e.clone()
	k := FreshVal(s2, "key", kt)
	if wit != nil {
		s2.Assume(s2.Eq(k, wit), false)
	}
	cell := MapCell(x, k, types.NewPointer(vt))
	var v *Term
	if x.K == KObj {
		v = s2.intro(NewSym("mapval", vt))
	} else {
		v = s2.loadAt(cell, vt, s2.Epochs[regionKey(cell)])
	}
	s2.Heap[cell] = v
	e2.v[in] = Tuple(Bool(true), k, v)
	f.block(b, e2, s2, act, i+1)
	// exhausted
	if wit != nil && !vis {
		return
	}
	e.v[in] = Tuple(Bool(false), Zero(kt), Zero(vt))
	f.block(b, e, st, act, i+1)
}

// ---- type assertions

func (f *frame) typeAssert(in *ssa.TypeAssert, b *ssa.BasicBlock, e *env, st *State, act *loopAct, i int) {
	x := f.val(e, in.X)
	c := TypeIs(x, in.AssertedType)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	get := func() *Term {
		if toIface {
			return x
		}
		u := Unbox(x, in.AssertedType)
		return st.intro(u)
	}
	ev := st.Eval(c)
	if in.CommaOk {
		if ev >= 0 {
			s2, e2 := st, e
			if ev == 0 {
				s2, e2 = st.Clone(), e.clone()
			}
			if s2.Assume(c, true) {
				e2.v[in] = Tuple(get(), Bool(true))
				f.block(b, e2, s2, act, i+1)
			}
		}
		if ev <= 0 && st.Assume(c, false) {
			e.v[in] = Tuple(Zero(in.AssertedType), Bool(false))
			f.block(b, e, st, act, i+1)
		}
		return
	}
	if ev <= 0 {
		if f.m.OnRuntimePanic != nil {
			f.m.OnRuntimePanic(f.m, st, in, "type assertion "+c.String())
		}
		if f.m.RuntimePanics || ev < 0 {
			s2, e2 := st.Clone(), e.clone()
			if s2.Assume(c, false) {
				f.panic(e2, s2, runtimeErr(in), act)
			}
		}
		if ev < 0 {
			return
		}
	}
	if !st.Assume(c, true) {
		return
	}
	e.v[in] = get()
	f.block(b, e, st, act, i+1)
}

// ---- builtins

func elemOf(t types.Type) types.Type {
	if t != nil {
		if s, ok := t.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return TAny
}

// CopyCells copies n array elements (known cells, segments) from src to dst.
func (s *State) copyCells(dst, dlo, src, slo, n *Term, elem types.Type) {
	pt := types.NewPointer(elem)
	if k, ok := IntVal(n); ok && k <= 64 {
		vals := make([]*Term, k)
		for i := range vals {
			vals[i] = s.Load(IndexAddr(src, AddK(slo, int64(i)), pt), elem)
		}
		for i, v := range vals {
			s.setElem(IndexAddr(dst, AddK(dlo, int64(i)), pt), v, elem)
		}
		return
	}
	shift := Sub(dlo, slo)
	if src.K == KObj {
		type kv struct{ a, v *Term }
		var cs []kv
		for a, v := range s.Heap {
			if idx, base, path := indexRoot(a, src); idx != nil && !s.outside(idx, slo, n) {
				cs = append(cs, kv{rebase(a, base, IndexAddr(dst, Add(idx, shift), base.Typ), path), v})
			}
		}
		for _, c := range cs {
			s.Heap[c.a] = c.v
		}
		for _, sg := range s.Segs[src] {
			lo, hi := sg.Lo, sg.Hi
			if s.GE(slo, lo) {
				lo = slo
			}
			if end := Add(slo, n); s.GE(hi, end) {
				hi = end
			}
			if s.GE(lo, hi) {
				continue
			}
			n := sg
			n.Lo, n.Hi = Add(lo, shift), Add(hi, shift)
			if sg.Tmpl != nil {
				n.Tmpl = Subst(sg.Tmpl, map[*Term]*Term{Kappa(): Sub(Kappa(), shift)})
			} else {
				n.Off = Sub(sg.Off, shift)
			}
			s.Segs[dst] = append(s.Segs[dst][:len(s.Segs[dst]):len(s.Segs[dst])], n)
		}
		if s.Dirty[src] > 0 {
			s.Dirty[dst] = 1
		}
		return
	}
	if src.K == KNil {
		return
	}
	// a view of foreign memory, overridden by known cells
	ep := s.Epochs[regionKey(IndexAddr(src, Int(0), pt))]
	s.Segs[dst] = append(s.Segs[dst][:len(s.Segs[dst]):len(s.Segs[dst])], Seg{Lo: dlo, Hi: Add(dlo, n), View: src, Off: Sub(slo, dlo), Epoch: ep})
	for a, v := range s.Heap {
		if a.K == KIndexAddr && a.Args[0] == src {
			s.Heap[IndexAddr(dst, Add(a.Args[1], shift), a.Typ)] = v
		}
	}
}

// outside: an index is provably not in [lo, lo+n).
func (s *State) outside(i, lo, n *Term) bool {
	return s.GE(AddK(lo, -1), i) || s.GE(i, Add(lo, n))
}

func (s *State) setElem(addr, v *Term, elem types.Type) {
	if st := structOf(elem); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.setElem(FieldAddr(addr, i, types.NewPointer(ft)), s.Field(v, i, ft), ft)
		}
		return
	}
	s.Heap[addr] = v
}

// indexRoot finds the element address below root inside a.
func indexRoot(a, root *Term) (idx, base *Term, path []*Term) {
	x := a
	for {
		if x.K == KIndexAddr && x.Args[0] == root {
			return x.Args[1], x, path
		}
		if x.K != KFieldAddr && x.K != KIndexAddr {
			return nil, nil, nil
		}
		path = append(path, x)
		x = x.Args[0]
	}
}

func rebase(a, from, to *Term, path []*Term) *Term {
	r := to
	for i := len(path) - 1; i >= 0; i-- {
		x := path[i]
		if x.K == KFieldAddr {
			r = FieldAddr(r, x.Idx, x.Typ)
		} else {
			r = IndexAddr(r, x.Args[1], x.Typ)
		}
	}
	return r
}

// AppendModel is s ++ elems.
func (s *State) AppendModel(t types.Type, a, b *Term) *Term {
	elem := elemOf(t)
	arr, lo, n, _ := s.SliceParts(a)
	o := NewObj("append", types.NewArray(elem, -1))
	s.copyCells(o, Int(0), arr, lo, n, elem)
	var m *Term
	if isString(b.Typ) {
		m = s.Len(b)
		if k, ok := IntVal(m); ok && k <= 64 {
			for i := int64(0); i < k; i++ {
				s.setElem(IndexAddr(o, AddK(n, i), types.NewPointer(elem)), s.StrAt(b, Int(i), elem), elem)
			}
		} else {
			s.Segs[o] = append(s.Segs[o][:len(s.Segs[o]):len(s.Segs[o])], Seg{Lo: n, Hi: Add(n, m), Tmpl: App("strat", elem, b, Sub(Kappa(), n))})
		}
	} else {
		barr, blo, bn, _ := s.SliceParts(b)
		m = bn
		s.copyCells(o, n, barr, blo, bn, elem)
	}
	if k, ok := IntVal(m); ok && k == 0 {
		return a
	}
	tot := Add(n, m)
	c := NewSym("cap", TInt)
	s.Lin.AddGE0(LinOf(c).add(LinOf(tot), RI(-1)))
	return SliceT(t, o, Int(0), tot, c)
}

func (f *frame) builtin(bl *ssa.Builtin, args []*Term, in *ssa.Call, e *env, st *State) []Outcome {
	m := f.m
	ret := func(t *Term) []Outcome { return []Outcome{{St: st, Ret: t}} }
	var rt types.Type
	if in != nil {
		rt = in.Type()
	}
	switch bl.Name() {
	case "len":
		x := args[0]
		if in != nil {
			if mt, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
				_ = mt
				if keys, known := st.mapKeys(x); known {
					return ret(Int(int64(len(keys))))
				}
				var n *Term
				if x.K == KObj {
					n = NewSym("maplen", TInt)
				} else {
					n = App("len", TInt, x, epochSym0(st.Epochs[regionKey(MapCell(x, Int(0), types.NewPointer(TAny)))]))
				}
				st.Lin.AddGE0(LinOf(n))
				return ret(n)
			}
			if at, ok := in.Call.Args[0].Type().Underlying().(*types.Array); ok {
				return ret(Int(at.Len()))
			}
			if p, ok := in.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					return ret(Int(at.Len()))
				}
			}
		}
		return ret(st.Len(x))
	case "cap":
		_, _, _, c := st.SliceParts(args[0])
		return ret(c)
	case "append":
		if len(args) < 2 {
			return ret(args[0])
		}
		r := st.AppendModel(rt, args[0], args[1])
		if m.OnAppend != nil {
			m.OnAppend(m, st, args[0], args[1], r, in)
		}
		return ret(r)
	case "copy":
		elem := elemOf(args[0].Typ)
		darr, dlo, dn, _ := st.SliceParts(args[0])
		var n *Term
		sn := st.Len(args[1])
		switch {
		case st.GE(dn, sn):
			n = sn
		case st.GE(sn, dn):
			n = dn
		default:
			n = NewSym("copied", TInt)
			st.Lin.AddGE0(LinOf(n))
			st.Lin.AddGE0(LinOf(dn).add(LinOf(n), RI(-1)))
			st.Lin.AddGE0(LinOf(sn).add(LinOf(n), RI(-1)))
		}
		if m.OnStore != nil && in != nil {
			m.OnStore(m, st, IndexAddr(darr, dlo, types.NewPointer(elem)), App("copy", elem, args[1]), in)
		}
		if isString(args[1].Typ) || darr.K != KObj {
			// forget the destination
			for a := range st.Heap {
				if idx, _, _ := indexRoot(a, darr); idx != nil {
					delete(st.Heap, a)
				}
			}
			delete(st.Segs, darr)
			st.Dirty[darr] = 1
			if darr.K != KObj {
				st.BumpRegion(regionKey(IndexAddr(darr, dlo, types.NewPointer(elem))))
			}
			return ret(n)
		}
		sarr, slo, _, _ := st.SliceParts(args[1])
		empty := len(st.Segs[darr]) == 0
		for a := range st.Heap {
			if idx, _, _ := indexRoot(a, darr); idx != nil {
				empty = false
			}
		}
		if _, isC := IntVal(n); !isC && (!empty || sarr == darr) {
			for a := range st.Heap {
				if idx, _, _ := indexRoot(a, darr); idx != nil {
					delete(st.Heap, a)
				}
			}
			delete(st.Segs, darr)
			st.Dirty[darr] = 1
			return ret(n)
		}
		st.copyCells(darr, dlo, sarr, slo, n, elem)
		return ret(n)
	case "delete":
		mp, k := args[0], args[1]
		if m.OnStore != nil && in != nil {
			m.OnStore(m, st, MapCell(mp, k, types.NewPointer(TAny)), Absent(), in)
		}
		if mp.K == KNil {
			return ret(nil)
		}
		_, vt := mapTypes(in.Call.Args[0].Type())
		cell := MapCell(mp, k, types.NewPointer(vt))
		for a := range st.Heap {
			if a != cell && a.K == KMapCell && st.mayAlias(a, cell) {
				delete(st.Heap, a)
				if a.Args[0].K == KObj {
					st.Dirty[a.Args[0]] = 1
				}
			}
		}
		if mp.K != KObj {
			st.BumpRegion(regionKey(cell))
		}
		st.Heap[cell] = Absent()
		return ret(nil)
	case "print", "println", "close", "clear":
		if bl.Name() == "clear" {
			m.Undecide("clear in %s", f.fn)
		}
		return ret(nil)
	case "recover":
		if p, ok := st.Panics[f.caller]; ok && f.caller >= 0 {
			delete(st.Panics, f.caller)
			return ret(p)
		}
		return ret(Nil(TAny))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "min", "max":
		op := token.LSS
		if bl.Name() == "max" {
			op = token.GTR
		}
		cur := args[0]
		for _, a := range args[1:] {
			c := st.BinOp(op, a, cur, rt, TBool)
			switch st.Eval(c) {
			case 1:
				cur = a
			case -1:
			default:
				cur = st.intro(App(bl.Name(), rt, cur, a))
			}
		}
		return ret(cur)
	case "complex":
		if args[0].K == KConst && args[1].K == KConst {
			im := constant.BinaryOp(constant.ToComplex(args[1].Val), token.MUL, constant.MakeImag(constant.MakeInt64(1)))
			return ret(ConstT(constant.BinaryOp(constant.ToComplex(args[0].Val), token.ADD, im), rt))
		}
		return ret(App("complex", rt, args...))
	case "real", "imag":
		if args[0].K == KApp && args[0].Name == "complex" {
			if bl.Name() == "real" {
				return ret(args[0].Args[0])
			}
			return ret(args[0].Args[1])
		}
		return ret(App(bl.Name(), rt, args...))
	}
	if rt == nil {
		m.Undecide("builtin %s in %s", bl.Name(), f.fn)
		return ret(nil)
	}
	return ret(st.intro(App("builtin:"+bl.Name(), rt, args...)))
}

// ---- calls outside the analysed module

// snapshot turns a known slice into a list term.
func (s *State) snapshot(x *Term) *Term {
	if x == nil {
		return x
	}
	if x.K == KSlice {
		n, ok := IntVal(x.Args[2])
		if ok && n <= 64 {
			elem := elemOf(x.Typ)
			args := make([]*Term, n)
			for i := range args {
				args[i] = s.snapshot(s.Load(IndexAddr(x.Args[0], AddK(x.Args[1], int64(i)), types.NewPointer(elem)), elem))
			}
			return App("list", x.Typ, args...)
		}
		return x
	}
	if x.K == KIface {
		return Iface(x.Typ, s.snapshot(x.Args[0]), nil)
	}
	return x
}

// ErrorType is the synthetic dynamic type of errors made by the standard library.
var ErrorType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

// NewError makes a fresh non-nil error whose message is described by desc.
func (s *State) NewError(desc *Term) *Term {
	o := NewObj("error", ErrorType.Elem())
	s.Heap[FieldAddr(o, 0, types.NewPointer(TString))] = desc
	return Iface(ErrorType, o, TError)
}

// ErrorDesc returns the description of an error made by NewError.
func (s *State) ErrorDesc(x *Term) *Term {
	if x != nil && x.K == KIface && x.Typ == ErrorType {
		return s.Heap[FieldAddr(x.Args[0], 0, types.NewPointer(TString))]
	}
	return nil
}

// pure external result.
func (m *Machine) pureResult(st *State, name string, sig *types.Signature, args []*Term) *Term {
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = st.snapshot(a)
	}
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return st.intro(App(name, res.At(0).Type(), as...))
	}
	rs := make([]*Term, res.Len())
	for i := range rs {
		rs[i] = st.intro(App(fmt.Sprintf("%s.%d", name, i), res.At(i).Type(), as...))
	}
	return Tuple(rs...)
}

func (m *Machine) external(ci *CallInfo, st *State) ([]Outcome, bool) {
	fn := ci.Fn
	name := fn.String()
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{St: st, Ret: t}}, true }
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return one(nil)
	}
	if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "unicode.Is") {
		if outs, ok := m.stringFn(name, ci, st); ok {
			return outs, true
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		as := make([]*Term, len(ci.Args))
		for i, a := range ci.Args {
			as[i] = st.snapshot(a)
		}
		return one(st.NewError(App(name, TString, as...)))
	case "os.Exit", "runtime.Goexit":
		return nil, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		return nil, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		return []Outcome{{St: st, Panic: runtimeErr(nil)}}, true
	case "unicode/utf8.DecodeRune":
		// (r, w): w >= 0, w <= 4, w <= len; w >= 1 for non-empty input
		x := ci.Args[0]
		r := NewSym("rune", types.Typ[types.Rune])
		w := NewSym("width", TInt)
		n := st.Len(x)
		st.Lin.AddGE0(LinOf(r))
		st.Lin.AddGE0(LinOf(w))
		st.Lin.AddGE0(linConst(4).add(LinOf(w), RI(-1)))
		st.Lin.AddGE0(LinOf(n).add(LinOf(w), RI(-1)))
		if st.GE(n, Int(1)) {
			st.Lin.AddGE0(LinOf(w).add(linConst(1), RI(-1)))
		}
		return one(Tuple(r, w))
	case "bytes.IndexByte", "strings.IndexByte", "strings.Index", "bytes.LastIndex", "strings.LastIndex", "bytes.Index":
		r := m.pureResult(st, name, fn.Signature, ci.Args)
		st.Lin.AddGE0(LinOf(r).add(linConst(1), RI(1)))
		st.Lin.AddGE0(LinOf(st.Len(ci.Args[0])).add(LinOf(r), RI(-1)).add(linConst(1), RI(-1)))
		return one(r)
	}
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) == 0 {
		return nil, false
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") {
		if outs, ok := m.reflectCalls(ci, name, st); ok {
			return outs, true
		}
		if fn.Signature.Results().Len() == 1 {
			if r, ok := m.reflectFn(name, ci.Args, fn.Signature.Results().At(0).Type(), st); ok {
				return one(st.intro(r))
			}
		}
	}
	if m.External != nil {
		if outs, ok := m.External(m, st, ci); ok {
			return outs, true
		}
	}
	return one(m.pureResult(st, name, fn.Signature, ci.Args))
}

// extInvoke models methods of unknown receivers declared outside the module.
func (m *Machine) extInvoke(ci *CallInfo, st *State) ([]Outcome, bool) {
	mt := ci.Method
	pkg := mt.Pkg()
	if pkg != nil && InRepo(pkg.Path()) {
		return nil, false
	}
	if pkg != nil && pkg.Path() == "reflect" {
		if t := TypeOfRType(ci.Recv); t != nil && ci.Sig.Results().Len() == 1 {
			if r, ok := reflectType(mt.Name(), t, ci.Args, ci.Sig.Results().At(0).Type()); ok {
				return []Outcome{{St: st, Ret: r}}, true
			}
		}
	}
	args := append([]*Term{ci.Recv}, ci.Args...)
	return []Outcome{{St: st, Ret: m.pureResult(st, "invoke:"+mt.FullName(), ci.Sig, args)}}, true
}

// ReflectKind is the reflect.Kind of a type.
func ReflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
			return 2 + int(u.Kind()-types.Int)
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return 7 + int(u.Kind()-types.Uint)
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// MapKeys lists the keys of a map whose contents are known.
func (s *State) MapKeys(m *Term) ([]*Term, bool) { return s.mapKeys(m) }
