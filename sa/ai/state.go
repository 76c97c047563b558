package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Seg is an array comprehension: for lo <= k < hi, arr[k] = Tmpl[κ:=k].
type Seg struct {
	Lo, Hi *Term
	Tmpl   *Term // nil: a view of another array
	View   *Term // array pointer viewed
	Off    *Term // element k is View[k+Off]
	Epoch  int
}

// Trace is a persistent list of notes for reports.
type Trace struct {
	Prev *Trace
	Msg  string
}

// State is an abstract state (one partition).
type State struct {
	Heap   map[*Term]*Term
	Segs   map[*Term][]Seg // fresh array -> known segments
	Dirty  map[*Term]int   // fresh array/map -> epoch since which unknown cells are arbitrary
	Lin    *LinSys
	Facts  map[*Term]bool
	Epochs map[string]int // region key -> epoch
	Panics map[int]*Term  // frame id -> in-flight panic
	Ghost  map[string]*Term
	Disc   map[string]string
	Trace  *Trace
}

// NewState returns an empty state.
func NewState() *State {
	return &State{Heap: map[*Term]*Term{}, Segs: map[*Term][]Seg{}, Dirty: map[*Term]int{}, Lin: NewLinSys(), Facts: map[*Term]bool{},
		Epochs: map[string]int{}, Panics: map[int]*Term{}, Ghost: map[string]*Term{}, Disc: map[string]string{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{Heap: make(map[*Term]*Term, len(s.Heap)+4), Segs: make(map[*Term][]Seg, len(s.Segs)), Dirty: make(map[*Term]int, len(s.Dirty)),
		Lin: s.Lin.Clone(), Facts: make(map[*Term]bool, len(s.Facts)+4), Epochs: make(map[string]int, len(s.Epochs)),
		Panics: make(map[int]*Term, len(s.Panics)), Ghost: make(map[string]*Term, len(s.Ghost)), Disc: make(map[string]string, len(s.Disc)), Trace: s.Trace}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.Segs {
		n.Segs[k] = v
	}
	for k, v := range s.Dirty {
		n.Dirty[k] = v
	}
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	for k, v := range s.Epochs {
		n.Epochs[k] = v
	}
	for k, v := range s.Panics {
		n.Panics[k] = v
	}
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	for k, v := range s.Disc {
		n.Disc[k] = v
	}
	return n
}

// Note appends a trace note.
func (s *State) Note(f string, a ...interface{}) {
	s.Trace = &Trace{s.Trace, fmt.Sprintf(f, a...)}
}

// Notes returns the trace, oldest first.
func (s *State) Notes() []string {
	var out []string
	for t := s.Trace; t != nil; t = t.Prev {
		out = append(out, t.Msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Root returns the base object of an address.
func Root(a *Term) *Term {
	for a.K == KFieldAddr || a.K == KIndexAddr || a.K == KMapCell {
		a = a.Args[0]
	}
	return a
}

// regionKey classifies an address for alias purposes: the last field (by
// struct type) or the element type of an indexed cell.
func regionKey(a *Term) string {
	switch a.K {
	case KFieldAddr:
		bt := a.Args[0].Typ
		return fmt.Sprintf("f:%d:%d", T.tid(deref(bt)), a.Idx)
	case KIndexAddr:
		return fmt.Sprintf("e:%d", T.tid(deref(a.Typ)))
	case KMapCell:
		return fmt.Sprintf("m:%d", T.tid(a.Args[0].Typ))
	case KGlobal:
		return fmt.Sprintf("g:%d", a.ID)
	}
	return fmt.Sprintf("p:%d", T.tid(deref(a.Typ)))
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isFresh(a *Term) bool { return Root(a).K == KObj }

// ---- facts

// Eval evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) Eval(c *Term) int {
	if b, ok := BoolVal(c); ok {
		if b {
			return 1
		}
		return -1
	}
	switch c.K {
	case KCmp:
		if c.Name == "ge0" {
			if s.Lin.EntailsGE0(c.L) {
				return 1
			}
			if s.Lin.EntailsGE0(c.L.scale(RI(-1)).add(linConst(1), RI(-1))) {
				return -1
			}
			return 0
		}
		if s.Lin.EntailsEQ0(c.L) {
			return 1
		}
		if s.Lin.EntailsNE0(c.L) {
			return -1
		}
		return 0
	case KApp:
		switch c.Name {
		case "not":
			return -s.Eval(c.Args[0])
		case "and":
			a, b := s.Eval(c.Args[0]), s.Eval(c.Args[1])
			if a < 0 || b < 0 {
				return -1
			}
			if a > 0 && b > 0 {
				return 1
			}
			return 0
		case "or":
			a, b := s.Eval(c.Args[0]), s.Eval(c.Args[1])
			if a > 0 || b > 0 {
				return 1
			}
			if a < 0 && b < 0 {
				return -1
			}
			return 0
		case "isnil":
			return s.evalNil(c.Args[0])
		case "eq":
			return s.evalEq(c.Args[0], c.Args[1], c)
		case "typeis":
			return s.evalType(c)
		}
	}
	return s.fact(c)
}

// fact looks a predicate up, modulo equal indices.
func (s *State) fact(c *Term) int {
	if v, ok := s.Facts[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	if c.K != KApp || !hasIndexLoad(c) {
		return 0
	}
	for f, v := range s.Facts {
		if f.K == KApp && f.Name == c.Name && hasIndexLoad(f) && s.congr(f, c, 0) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func hasIndexLoad(t *Term) bool {
	if t.K == KApp && (t.Name == "load" || t.Name == "strat") {
		return true
	}
	for _, a := range t.Args {
		if len(a.Args) > 0 && hasIndexLoad(a) {
			return true
		}
	}
	return false
}

// congr reports equality up to equal integers in argument position.
func (s *State) congr(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 8 {
		return false
	}
	if isInt(a) && isInt(b) && (a.K == KConst || a.K == KLin || a.K == KSym) {
		return s.EQ(a, b)
	}
	if a.K != b.K || len(a.Args) == 0 || len(a.Args) != len(b.Args) || a.Name != b.Name || a.Idx != b.Idx || a.Fn != b.Fn || a.K == KLin || a.K == KCmp || a.L != nil {
		return false
	}
	for i := range a.Args {
		if !s.congr(a.Args[i], b.Args[i], d+1) {
			return false
		}
	}
	return true
}

func (s *State) evalNil(x *Term) int {
	switch x.K {
	case KNil:
		return 1
	case KObj, KGlobal, KFunc, KClosure, KFieldAddr, KIndexAddr, KIface:
		return -1
	case KSlice:
		if v, ok := s.Facts[App("isnil", TBool, x)]; ok && v {
			return 1
		}
		if x.Args[0].K == KObj {
			return -1
		}
		if s.Lin.EntailsGE0(LinOf(x.Args[2]).add(linConst(1), RI(-1))) {
			return -1
		}
	}
	if v := s.fact(App("isnil", TBool, x)); v != 0 {
		return v
	}
	if x.K == KApp && x.Name == "errnew" {
		return -1
	}
	return 0
}

func (s *State) evalEq(a, b, c *Term) int {
	if a == b {
		return 1
	}
	if a.K != KIface && b.K != KIface && (isBool(a.Typ) || isBool(b.Typ)) {
		x, y := s.Eval(a), s.Eval(b)
		if x != 0 && y != 0 {
			return x * y
		}
	}
	if a.K == KConst && b.K == KConst {
		return -1
	}
	if v := s.fact(c); v != 0 {
		return v
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.Typ, b.Typ) {
			return -1
		}
		return s.Eval(s.Eq(a.Args[0], b.Args[0]))
	}
	// distinct fresh objects
	if a.K == KObj && b.K == KObj {
		return -1
	}
	if a.K == KObj && b.Birth < a.Birth || b.K == KObj && a.Birth < b.Birth {
		return -1 // a fresh object is not an older value
	}
	if a.K == KFunc && b.K == KFunc || a.K == KClosure && b.K == KFunc || a.K == KFunc && b.K == KClosure {
		return -1
	}
	// one side equal to another constant
	var x, k *Term
	if a.K == KConst {
		x, k = b, a
	} else if b.K == KConst {
		x, k = a, b
	}
	if x != nil {
		for f, v := range s.Facts {
			if v && f.K == KApp && f.Name == "eq" {
				o := f.Args[0]
				if f.Args[0] == x {
					o = f.Args[1]
				} else if f.Args[1] != x {
					continue
				}
				if o.K == KConst && o != k {
					return -1
				}
			}
		}
		if ks, ok := StrVal(k); ok {
			n := len(ks)
			if s.Lin.EntailsNE0(LinOf(LenAtom(x)).add(linConst(int64(n)), RI(-1))) {
				return -1
			}
			if x.K == KSym || x.K == KApp && x.Name == "substr" {
				for i := 0; i < n && i < 4; i++ {
					if s.Lin.EntailsNE0(LinOf(s.StrAt(x, Int(int64(i)), types.Typ[types.Uint8])).add(linConst(int64(ks[i])), RI(-1))) {
						return -1
					}
				}
			}
		}
	}
	return 0
}

func (s *State) evalType(c *Term) int {
	x := c.Args[0]
	t := c.Args[1].Typ
	switch x.K {
	case KNil:
		return -1
	case KIface:
		if typeMatches(x.Typ, t) {
			return 1
		}
		return -1
	}
	if v := s.fact(c); v != 0 {
		return v
	}
	if s.evalNil(x) > 0 {
		return -1
	}
	if dt := s.KnownType(x); dt != nil {
		if typeMatches(dt, t) {
			return 1
		}
		return -1
	}
	if x.Typ != nil && !types.IsInterface(t) {
		if xi, ok := x.Typ.Underlying().(*types.Interface); ok && !types.Implements(t, xi) {
			return -1
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok && x.Typ != nil {
		if xi, ok := x.Typ.Underlying().(*types.Interface); ok && types.Implements(xi, it) && s.evalNil(x) < 0 {
			return 1
		}
	}
	return 0
}

func typeMatches(dyn, t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if dyn == ErrorType {
			return types.Implements(TError, it)
		}
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, t)
}

// KnownType returns the dynamic type of an interface term if known.
func (s *State) KnownType(x *Term) types.Type {
	if x.K == KIface {
		return x.Typ
	}
	if x.K == KApp && x.Name == "errnew" {
		return ErrorType
	}
	for f, v := range s.Facts {
		if v && f.K == KApp && f.Name == "typeis" && f.Args[0] == x {
			t := f.Args[1].Typ
			if _, ok := t.Underlying().(*types.Interface); !ok {
				return t
			}
		}
	}
	return nil
}

// TypeTerm wraps a type as a term.
func TypeTerm(t types.Type) *Term {
	return T.mk(fmt.Sprintf("type:%d", T.tid(t)), Term{K: KApp, Typ: t, Name: "type:" + typeName(t)})
}

// TypeIs is the predicate "dynamic type of x matches t".
func TypeIs(x *Term, t types.Type) *Term { return App("typeis", TBool, x, TypeTerm(t)) }

// IsNil is the nil test of x.
func (s *State) IsNil(x *Term) *Term {
	switch s.evalNil(x) {
	case 1:
		return Bool(true)
	case -1:
		return Bool(false)
	}
	return App("isnil", TBool, x)
}

// Not negates a boolean term.
func Not(c *Term) *Term {
	if b, ok := BoolVal(c); ok {
		return Bool(!b)
	}
	if c.K == KApp && c.Name == "not" {
		return c.Args[0]
	}
	if c.K == KCmp && c.Name == "ge0" {
		return GE0(c.L.scale(RI(-1)).add(linConst(1), RI(-1)))
	}
	return App("not", TBool, c)
}

// Eq is the equality predicate.
func (s *State) Eq(a, b *Term) *Term {
	if a == b && !isFloat(a.Typ) {
		return Bool(true)
	}
	if a.K == KIface && b.K == KIface && types.Comparable(a.Typ) {
		if !types.Identical(a.Typ, b.Typ) {
			return Bool(false)
		}
		return s.Eq(a.Args[0], b.Args[0])
	}
	if isInt(a) && isInt(b) {
		return EQ0(LinOf(a).add(LinOf(b), RI(-1)))
	}
	if a.K == KNil {
		a, b = b, a
	}
	if b.K == KNil {
		return s.IsNil(a)
	}
	if isBool(a.Typ) && isBool(b.Typ) {
		if v, ok := BoolVal(b); ok {
			if v {
				return a
			}
			return Not(a)
		}
		if v, ok := BoolVal(a); ok {
			if v {
				return b
			}
			return Not(b)
		}
	}
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
		var r *Term = Bool(true)
		for i := range a.Args {
			e := s.Eq(a.Args[i], b.Args[i])
			switch s.Eval(e) {
			case 1:
				continue
			case -1:
				return Bool(false)
			}
			if v, ok := BoolVal(r); ok && v {
				r = e
			} else {
				r = App("and", TBool, r, e)
			}
		}
		return r
	}
	if a.K == KConst && b.K == KConst && a.Val.Kind() == b.Val.Kind() {
		return Bool(a == b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	c := App("eq", TBool, a, b)
	switch s.evalEq(a, b, c) {
	case 1:
		return Bool(true)
	case -1:
		return Bool(false)
	}
	return c
}

func isInt(t *Term) bool {
	if t.K == KLin {
		return true
	}
	if t.K == KIface {
		return false
	}
	return isInteger(t.Typ) || t.K == KConst && isIntConst(t)
}

func isIntConst(t *Term) bool { _, ok := IntVal(t); return ok }

// Assume adds c == v. It returns false when the state becomes infeasible.
func (s *State) Assume(c *Term, v bool) bool {
	e := s.Eval(c)
	if e > 0 {
		return v
	}
	if e < 0 {
		return !v
	}
	switch c.K {
	case KCmp:
		if c.Name == "ge0" {
			if v {
				return s.Lin.AddGE0(c.L)
			}
			return s.Lin.AddGE0(c.L.scale(RI(-1)).add(linConst(1), RI(-1)))
		}
		if v {
			return s.Lin.AddEQ0(c.L)
		}
		return s.Lin.AddNE0(c.L)
	case KApp:
		switch c.Name {
		case "not":
			return s.Assume(c.Args[0], !v)
		case "and":
			if v {
				return s.Assume(c.Args[0], true) && s.Assume(c.Args[1], true)
			}
			if s.Eval(c.Args[0]) > 0 {
				return s.Assume(c.Args[1], false)
			}
			if s.Eval(c.Args[1]) > 0 {
				return s.Assume(c.Args[0], false)
			}
		case "or":
			if !v {
				return s.Assume(c.Args[0], false) && s.Assume(c.Args[1], false)
			}
			if s.Eval(c.Args[0]) < 0 {
				return s.Assume(c.Args[1], true)
			}
			if s.Eval(c.Args[1]) < 0 {
				return s.Assume(c.Args[0], true)
			}
		case "isnil":
			x := c.Args[0]
			if v && x.Typ != nil {
				if _, ok := x.Typ.Underlying().(*types.Slice); ok {
					_, _, n, _ := s.SliceParts(x)
					if !s.Lin.AddEQ0(LinOf(n)) {
						return false
					}
				}
			}
		case "eq":
			if v {
				for i := 0; i < 2; i++ {
					x, k := c.Args[i], c.Args[1-i]
					if isBool(x.Typ) {
						if e := s.Eval(k); e != 0 && !s.Assume(x, e > 0) {
							return false
						}
					}
					if ks, ok := StrVal(k); ok {
						if !s.Lin.AddEQ0(LinOf(LenAtom(x)).add(linConst(int64(len(ks))), RI(-1))) {
							return false
						}
					}
					if s.evalNil(x) < 0 && IsNilable(k.Typ) && s.evalNil(k) == 0 {
						s.Facts[App("isnil", TBool, k)] = false
					}
				}
			}
		case "typeis":
			if v {
				s.Facts[App("isnil", TBool, c.Args[0])] = false
			}
		}
	}
	s.Facts[c] = v
	return true
}

// LenAtom is the length of a string/map/unknown slice term.
func LenAtom(x *Term) *Term {
	if v, ok := StrVal(x); ok {
		return Int(int64(len(v)))
	}
	if x.K == KNil {
		return Int(0)
	}
	if x.K == KApp && x.Name == "substr" {
		return Sub(x.Args[2], x.Args[1])
	}
	if x.K == KApp && x.Name == "concat" {
		return Add(LenAtom(x.Args[0]), LenAtom(x.Args[1]))
	}
	return App("len", TInt, x)
}

// Len returns len(x) with its non-negativity recorded.
func (s *State) Len(x *Term) *Term {
	if x.K == KSlice {
		return x.Args[2]
	}
	if x.Typ != nil {
		if _, ok := x.Typ.Underlying().(*types.Slice); ok && x.K != KNil {
			_, _, n, _ := s.SliceParts(x)
			return n
		}
	}
	n := LenAtom(x)
	s.Lin.AddGE0(LinOf(n))
	return n
}

// SliceParts decomposes a slice value (arr pointer, low offset, len, cap).
func (s *State) SliceParts(x *Term) (arr, lo, n, c *Term) {
	switch x.K {
	case KSlice:
		return x.Args[0], x.Args[1], x.Args[2], x.Args[3]
	case KNil:
		return Nil(x.Typ), Int(0), Int(0), Int(0)
	}
	var elem types.Type = TInt
	if x.Typ != nil {
		if st, ok := x.Typ.Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
	}
	arr = App("data", types.NewPointer(types.NewArray(elem, -1)), x)
	n = App("len", TInt, x)
	c = App("cap", TInt, x)
	s.Lin.AddGE0(LinOf(n))
	s.Lin.AddGE0(LinOf(c).add(LinOf(n), RI(-1)))
	return arr, Int(0), n, c
}

// ---- memory

// Zero is the zero value of t.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return ConstT(constInt(0), t)
		case u.Info()&types.IsFloat != 0:
			return ConstT(constFloat(0), t)
		case u.Info()&types.IsComplex != 0:
			return App("zero", t)
		case u.Info()&types.IsString != 0:
			return Str("")
		}
		return Nil(t)
	case *types.Struct:
		if opaqueStruct(t) {
			return App("zero", t)
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = Zero(u.Field(i).Type())
		}
		return StructT(t, fs)
	case *types.Array:
		return App("zero", t)
	}
	return Nil(t)
}

// opaqueStruct: structs of other modules are single cells.
func opaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !InRepo(p.Path()) {
			return p.Path() != "go/token" || n.Obj().Name() != "Position" // plain data
		}
	}
	return false
}

// RepoPrefix is the module path of the analysed code.
var RepoPrefix = "github.com/qiniu/text"

// InRepo reports whether a package path belongs to the analysed module.
func InRepo(path string) bool {
	return path == RepoPrefix || strings.HasPrefix(path, RepoPrefix+"/")
}

func structOf(t types.Type) *types.Struct {
	if t == nil || opaqueStruct(t) {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// mayAlias reports whether two leaf addresses may denote the same cell.
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := Root(a), Root(b)
	if ra.K == KObj && rb.K == KObj && ra != rb {
		return false
	}
	if ra.K == KGlobal && rb.K == KGlobal && ra != rb {
		return false
	}
	if ra != rb {
		// a fresh object can only be reached by an older symbolic pointer if it escaped; values loaded later may
		if ra.K == KObj && (rb.Birth < ra.Birth || rb.K == KGlobal) || rb.K == KObj && (ra.Birth < rb.Birth || ra.K == KGlobal) {
			return false
		}
		if ra.K == KGlobal && a == ra && rb.K != KGlobal || rb.K == KGlobal && b == rb && ra.K != KGlobal {
			return false // address of a global variable itself is not taken by field paths
		}
	}
	if regionKey(a) != regionKey(b) {
		return false
	}
	// same shape, e.g. x.f vs y.f or A[i] vs B[j]
	switch a.K {
	case KIndexAddr, KMapCell:
		if a.Args[0] == b.Args[0] {
			return s.mayEqual(a.Args[1], b.Args[1])
		}
		return s.mayAliasBase(a.Args[0], b.Args[0])
	case KFieldAddr:
		return s.mayAliasBase(a.Args[0], b.Args[0])
	}
	return true
}

func (s *State) mayAliasBase(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.K == KFieldAddr || a.K == KIndexAddr || b.K == KFieldAddr || b.K == KIndexAddr {
		if a.K == KIndexAddr && b.K == KIndexAddr && a.Args[0] == b.Args[0] {
			return s.mayEqual(a.Args[1], b.Args[1])
		}
		if a.K == KFieldAddr && b.K == KFieldAddr {
			if a.Idx != b.Idx && types.Identical(deref(a.Args[0].Typ), deref(b.Args[0].Typ)) {
				return false
			}
			return s.mayAliasBase(a.Args[0], b.Args[0])
		}
	}
	if e := s.Eval(s.Eq(a, b)); e < 0 {
		return false
	}
	return true
}

func (s *State) mayEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	return s.Eval(s.Eq(a, b)) >= 0
}

func (s *State) mustEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	return s.Eval(s.Eq(a, b)) > 0
}

// Load reads the value at addr (element type t).
func (s *State) Load(addr *Term, t types.Type) *Term {
	if st := structOf(t); st != nil {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.Load(FieldAddr(addr, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
		}
		return StructT(t, fs)
	}
	if v, ok := s.Heap[addr]; ok {
		return v
	}
	root := Root(addr)
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 1024 && at.Len() >= 0 && structOf(t) == nil {
		pt := types.NewPointer(at.Elem())
		known := root.K == KObj && s.Dirty[root] == 0
		args := make([]*Term, at.Len())
		ok := true
		for i := range args {
			ca := IndexAddr(addr, Int(int64(i)), pt)
			if _, has := s.Heap[ca]; !has && !known && structOf(at.Elem()) == nil {
				ok = false
				break
			}
			args[i] = s.Load(ca, at.Elem())
		}
		if ok {
			return App("arr", t, args...)
		}
	}
	// equal index, different term
	unknown := false
	if addr.K == KIndexAddr {
		for a, v := range s.Heap {
			if a.K == KIndexAddr && a.Args[0] == addr.Args[0] {
				if s.mustEqual(a.Args[1], addr.Args[1]) {
					return v
				}
				if s.mayEqual(a.Args[1], addr.Args[1]) {
					unknown = true
				}
			}
		}
		if unknown {
			v := NewSym("ld", t)
			return s.intro(v)
		}
		if root.K == KObj && addr.Args[0] == root {
			idx := addr.Args[1]
			for _, sg := range s.Segs[root] {
				in1 := s.Lin.EntailsGE0(LinOf(idx).add(LinOf(sg.Lo), RI(-1)))
				in2 := s.Lin.EntailsGE0(LinOf(sg.Hi).add(LinOf(idx), RI(-1)).add(linConst(1), RI(-1)))
				if in1 && in2 {
					if sg.Tmpl != nil {
						return Subst(sg.Tmpl, map[*Term]*Term{Kappa(): idx})
					}
					return s.loadAt(IndexAddr(sg.View, Add(idx, sg.Off), addr.Typ), t, sg.Epoch)
				}
				out := s.Lin.EntailsGE0(LinOf(sg.Lo).add(LinOf(idx), RI(-1)).add(linConst(1), RI(-1))) ||
					s.Lin.EntailsGE0(LinOf(idx).add(LinOf(sg.Hi), RI(-1)))
				if !out {
					unknown = true
				}
			}
			if unknown {
				return s.intro(NewSym("ld", t))
			}
		}
	}
	if root.K == KObj && s.freshZero(addr, root) {
		return Zero(t)
	}
	if root.K == KObj {
		v := s.intro(NewSym("ld", t))
		s.Heap[addr] = v
		return v
	}
	return s.loadAt(addr, t, s.Epochs[regionKey(addr)])
}

func (s *State) freshZero(addr, root *Term) bool {
	if s.Dirty[root] > 0 {
		return false
	}
	return true
}

func (s *State) loadAt(addr *Term, t types.Type, epoch int) *Term {
	if st := structOf(t); st != nil {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.loadAt(FieldAddr(addr, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type(), epoch)
		}
		return StructT(t, fs)
	}
	if epoch > 0 {
		return s.intro(App("load", t, addr, epochSym(epoch)))
	}
	return s.intro(App("load", t, addr))
}

// intro records type-implied facts of a new atom (unsigned >= 0).
func (s *State) intro(v *Term) *Term {
	if v.Typ != nil {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			s.Lin.AddGE0(LinOf(v))
		}
	}
	return v
}

// Store writes v at addr (element type t).
func (s *State) Store(addr, v *Term, t types.Type) {
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.Store(FieldAddr(addr, i, types.NewPointer(ft)), s.Field(v, i, ft), ft)
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		// whole-array store: drop known cells
		for a := range s.Heap {
			if a.K == KIndexAddr && a.Args[0] == addr {
				delete(s.Heap, a)
			}
		}
		if v.K == KApp && v.Name == "zero" {
			return
		}
		if v.K == KApp && v.Name == "arr" {
			for i, e := range v.Args {
				s.Store(IndexAddr(addr, Int(int64(i)), types.NewPointer(at.Elem())), e, at.Elem())
			}
			return
		}
		s.Dirty[Root(addr)]++
		return
	}
	for a := range s.Heap {
		if a != addr && s.mayAlias(a, addr) {
			if a.K == KIndexAddr && a.Args[0] == addr.Args[0] && s.mustEqual(a.Args[1], addr.Args[1]) {
				delete(s.Heap, a)
				continue
			}
			if addr.K == KIndexAddr && a.K == KIndexAddr || true {
				delete(s.Heap, a)
				if isFresh(a) {
					// unknown from now on
					s.Heap[a] = s.intro(NewSym("alias", deref(a.Typ)))
				}
			}
		}
	}
	if !isFresh(addr) {
		k := regionKey(addr)
		s.Epochs[k] = s.nextEpoch()
	}
	s.Heap[addr] = v
}

var epochCounter int

func (s *State) nextEpoch() int {
	epochCounter++
	epochSym(epochCounter)
	return epochCounter
}

func epochSym(ep int) *Term { return NamedSym(fmt.Sprintf("epoch%d", ep), TInt) }

// Field projects a struct value.
func (s *State) Field(v *Term, i int, ft types.Type) *Term {
	if v.K == KStruct {
		return v.Args[i]
	}
	if v.K == KApp && v.Name == "zero" {
		return Zero(ft)
	}
	return s.intro(App(fmt.Sprintf("field%d", i), ft, v))
}

// HavocRegions forgets every cell of the given region keys except those of
// protected roots.
func (s *State) HavocRegions(match func(key string) bool, protect func(root *Term) bool) {
	ep := s.nextEpoch()
	for a := range s.Heap {
		k := regionKey(a)
		if !match(k) || protect != nil && protect(Root(a)) {
			continue
		}
		delete(s.Heap, a)
		if isFresh(a) {
			s.Heap[a] = s.intro(NewSym("havoc", deref(a.Typ)))
		} else {
			s.Epochs[k] = ep
		}
	}
}

// BumpRegion makes later reads of unknown cells of the region distinct.
func (s *State) BumpRegion(k string) { s.Epochs[k] = s.nextEpoch() }

// FieldRegion is the region key of a struct field.
func FieldRegion(t types.Type, idx int) string { return fmt.Sprintf("f:%d:%d", T.tid(t), idx) }

// Entails evaluates a predicate to true.
func (s *State) Entails(c *Term) bool { return s.Eval(c) > 0 }

// GE reports a >= b.
func (s *State) GE(a, b *Term) bool {
	return s.Lin.EntailsGE0(LinOf(a).add(LinOf(b), RI(-1)))
}

// EQ reports a == b for integers.
func (s *State) EQ(a, b *Term) bool {
	return a == b || s.Lin.EntailsEQ0(LinOf(a).add(LinOf(b), RI(-1)))
}

// Same reports that two terms denote equal values.
func (s *State) Same(a, b *Term) bool {
	if a == b {
		return true
	}
	if isInt(a) && isInt(b) {
		return s.EQ(a, b)
	}
	if a.K == KSlice || b.K == KSlice {
		a1, a2, a3, _ := s.SliceParts(a)
		b1, b2, b3, _ := s.SliceParts(b)
		return a1 == b1 && s.EQ(a2, b2) && s.EQ(a3, b3)
	}
	if a.K == KApp && b.K == KApp && a.Name == b.Name && len(a.Args) == len(b.Args) && len(a.Args) > 0 ||
		a.K == b.K && (a.K == KIndexAddr || a.K == KFieldAddr && a.Idx == b.Idx || a.K == KIface && types.Identical(a.Typ, b.Typ) || a.K == KStruct) {
		if len(a.Args) != len(b.Args) {
			return false
		}
		for i := range a.Args {
			if !s.Same(a.Args[i], b.Args[i]) {
				return s.Eval(s.Eq(a, b)) > 0
			}
		}
		return true
	}
	return s.Eval(s.Eq(a, b)) > 0
}

// Dump prints the state for debugging.
func (s *State) Dump() string {
	var b strings.Builder
	var lines []string
	for a, v := range s.Heap {
		if Root(a).K == KGlobal {
			continue
		}
		lines = append(lines, fmt.Sprintf("  %s = %s", a, v))
	}
	for f, v := range s.Facts {
		lines = append(lines, fmt.Sprintf("  fact %s = %v", f, v))
	}
	for k, v := range s.Ghost {
		lines = append(lines, fmt.Sprintf("  ghost %s = %s", k, v))
	}
	for k, v := range s.Disc {
		lines = append(lines, fmt.Sprintf("  disc %s = %s", k, v))
	}
	for _, r := range s.Lin.rowsEq() {
		lines = append(lines, "  "+linStr(r, 0)+" == 0")
	}
	for _, r := range s.Lin.ineq {
		lines = append(lines, "  "+linStr(r, 0)+" >= 0")
	}
	for _, r := range s.Lin.neq {
		lines = append(lines, "  "+linStr(r, 0)+" != 0")
	}
	sort.Strings(lines)
	b.WriteString(strings.Join(lines, "\n"))
	return b.String()
}

// MethodOf finds the declared SSA function for a method of a concrete type.
func MethodOf(prog *ssa.Program, t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}
