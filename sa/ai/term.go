// Package ai is a bespoke abstract interpreter for go/ssa programs: trace
// partitioned abstract states, a relational numeric domain (affine equalities
// plus linear inequalities), nilness/type/boolean facts and a points-to heap
// with strong updates. Loops are solved by fixpoint iteration.
package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of a term.
type Kind uint8

// Term kinds.
const (
	KSym Kind = iota
	KConst
	KNil
	KLin
	KObj
	KGlobal
	KFunc
	KClosure
	KFieldAddr
	KIndexAddr
	KMapCell
	KStruct
	KTuple
	KSlice
	KIface
	KApp
	KKappa
	KCmp // linear atom: Name is "ge0" or "eq0"
)

// Term is a hash-consed abstract value.
type Term struct {
	K     Kind
	Typ   types.Type
	Name  string
	ID    int
	Val   constant.Value
	Args  []*Term
	L     *Lin
	Fn    *ssa.Function
	G     *ssa.Global
	Idx   int
	Birth int // largest symbol serial inside the term
}

// LT is one linear term.
type LT struct {
	A *Term
	C Rat
}

// Lin is a linear form K + sum C*A, sorted by A.ID.
type Lin struct {
	K Rat
	T []LT
}

// Store of interned terms. One analysis runs in one goroutine.
type TermTab struct {
	tab    map[string]*Term
	nextID int
	serial int
	tids   map[string]int
	tcache map[types.Type]int
}

// T is the global term table.
var T = newTab()

func newTab() *TermTab {
	return &TermTab{tab: map[string]*Term{}, tids: map[string]int{}, tcache: map[types.Type]int{}}
}

var typeKeyRe = regexp.MustCompile(`[\w./]+`)

func (tt *TermTab) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := tt.tcache[t]; ok {
		return id
	}
	s := typeKeyRe.ReplaceAllStringFunc(types.TypeString(t, nil), func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return w
	})
	id, ok := tt.tids[s]
	if !ok {
		id = len(tt.tids) + 1
		tt.tids[s] = id
	}
	tt.tcache[t] = id
	return id
}

func (tt *TermTab) mk(key string, t Term) *Term {
	if x, ok := tt.tab[key]; ok {
		return x
	}
	tt.nextID++
	n := t
	n.ID = tt.nextID
	for _, a := range n.Args {
		if a != nil && a.Birth > n.Birth {
			n.Birth = a.Birth
		}
	}
	if n.L != nil {
		for _, lt := range n.L.T {
			if lt.A.Birth > n.Birth {
				n.Birth = lt.A.Birth
			}
		}
	}
	p := &n
	tt.tab[key] = p
	return p
}

func ids(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		if a == nil {
			b.WriteString(",_")
		} else {
			fmt.Fprintf(&b, ",%d", a.ID)
		}
	}
	return b.String()
}

// Serial returns the current symbol serial (watermark).
func Serial() int { return T.serial }

// NewSym makes a fresh symbol.
func NewSym(name string, typ types.Type) *Term {
	T.serial++
	n := T.serial
	return T.mk(fmt.Sprintf("sym%d", n), Term{K: KSym, Typ: typ, Name: fmt.Sprintf("%s#%d", name, n), Birth: n, Idx: n})
}

// NamedSym makes (or returns) a symbol identified by its name.
func NamedSym(name string, typ types.Type) *Term {
	key := "nsym:" + name
	if x, ok := T.tab[key]; ok {
		return x
	}
	T.serial++
	return T.mk(key, Term{K: KSym, Typ: typ, Name: name, Birth: T.serial, Idx: T.serial})
}

// NewObj makes a fresh allocation whose element type is typ (the term has type *typ).
func NewObj(name string, elem types.Type) *Term {
	T.serial++
	n := T.serial
	return T.mk(fmt.Sprintf("obj%d", n), Term{K: KObj, Typ: types.NewPointer(elem), Name: fmt.Sprintf("%s@%d", name, n), Birth: n, Idx: n})
}

// Types.
var (
	TInt    = types.Typ[types.Int]
	TBool   = types.Typ[types.Bool]
	TString = types.Typ[types.String]
	TError  = types.Universe.Lookup("error").Type()
	TAny    = types.NewInterfaceType(nil, nil)
)

// Int returns an int constant.
func Int(n int64) *Term { return ConstT(constant.MakeInt64(n), TInt) }

// Str returns a string constant.
func Str(s string) *Term { return ConstT(constant.MakeString(s), TString) }

// Bool returns a bool constant.
func Bool(b bool) *Term { return ConstT(constant.MakeBool(b), TBool) }

// ConstT returns a constant. Integer constants are identified irrespective of type.
func ConstT(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Float && isInteger(typ) {
		v = constant.ToInt(v)
	}
	if v.Kind() == constant.Int && isFloat(typ) {
		v = constant.ToFloat(v)
	}
	key := "c:" + v.Kind().String() + ":" + v.ExactString()
	if v.Kind() == constant.Float || v.Kind() == constant.Complex || isFloat(typ) || isComplex(typ) {
		key = "cf:" + v.ExactString()
	}
	return T.mk(key, Term{K: KConst, Typ: typ, Val: v})
}

// Nil returns the nil value of a type.
func Nil(typ types.Type) *Term {
	return T.mk("nil", Term{K: KNil, Typ: typ})
}

// App makes an uninterpreted application.
func App(name string, typ types.Type, args ...*Term) *Term {
	return T.mk(fmt.Sprintf("app:%s:%d%s", name, T.tid(typ), ids(args)), Term{K: KApp, Typ: typ, Name: name, Args: args})
}

// FuncT is a function constant.
func FuncT(fn *ssa.Function) *Term {
	return T.mk(fmt.Sprintf("fn:%p", fn), Term{K: KFunc, Typ: fn.Signature, Fn: fn, Name: fn.String()})
}

// Closure is a function with bound free variables.
func Closure(fn *ssa.Function, binds []*Term) *Term {
	return T.mk(fmt.Sprintf("clo:%p%s", fn, ids(binds)), Term{K: KClosure, Typ: fn.Signature, Fn: fn, Args: binds, Name: fn.String()})
}

// GlobalT is the address of a global.
func GlobalT(g *ssa.Global) *Term {
	return T.mk(fmt.Sprintf("glob:%p", g), Term{K: KGlobal, Typ: g.Type(), G: g, Name: g.String()})
}

// FieldAddr is the address of a field.
func FieldAddr(base *Term, idx int, typ types.Type) *Term {
	return T.mk(fmt.Sprintf("fa:%d:%d", base.ID, idx), Term{K: KFieldAddr, Typ: typ, Args: []*Term{base}, Idx: idx})
}

// IndexAddr is the address of an array element; base is the array pointer.
func IndexAddr(base, idx *Term, typ types.Type) *Term {
	return T.mk(fmt.Sprintf("ia:%d:%d", base.ID, idx.ID), Term{K: KIndexAddr, Typ: typ, Args: []*Term{base, idx}})
}

// MapCell is the cell of a map entry.
func MapCell(m, key *Term, typ types.Type) *Term {
	return T.mk(fmt.Sprintf("mc:%d:%d", m.ID, key.ID), Term{K: KMapCell, Typ: typ, Args: []*Term{m, key}})
}

// StructT makes a struct value.
func StructT(typ types.Type, fields []*Term) *Term {
	return T.mk(fmt.Sprintf("st:%d%s", T.tid(typ), ids(fields)), Term{K: KStruct, Typ: typ, Args: fields})
}

// Tuple makes a tuple.
func Tuple(args ...*Term) *Term {
	return T.mk("tup"+ids(args), Term{K: KTuple, Args: args})
}

// SliceT makes a slice value over array pointer arr.
func SliceT(typ types.Type, arr, lo, n, c *Term) *Term {
	args := []*Term{arr, lo, n, c}
	return T.mk(fmt.Sprintf("sl:%d%s", T.tid(typ), ids(args)), Term{K: KSlice, Typ: typ, Args: args})
}

// Iface makes an interface value with a known dynamic type.
func Iface(dyn types.Type, v *Term, static types.Type) *Term {
	if v.K == KApp && v.Name == "unbox" && types.Identical(v.Typ, dyn) {
		return v.Args[0]
	}
	return T.mk(fmt.Sprintf("if:%d:%d", T.tid(dyn), v.ID), Term{K: KIface, Typ: dyn, Args: []*Term{v}})
}

// Kappa is the bound index of array comprehensions.
func Kappa() *Term { return T.mk("kappa", Term{K: KKappa, Typ: TInt, Name: "κ"}) }

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// IsNilable reports whether values of t may be nil.
func IsNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil
	}
	return false
}

// ---- linear forms

func linConst(n int64) *Lin { return &Lin{K: RI(n)} }

// LinOf returns the linear form of an integer term.
func LinOf(t *Term) *Lin {
	switch t.K {
	case KConst:
		if t.Val.Kind() == constant.Int {
			if v, ok := constant.Int64Val(t.Val); ok {
				return linConst(v)
			}
		}
	case KLin:
		return t.L
	}
	return &Lin{T: []LT{{t, RI(1)}}}
}

func (a *Lin) add(b *Lin, k Rat) *Lin {
	r := &Lin{K: a.K.Add(b.K.Mul(k))}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].A.ID < b.T[j].A.ID:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].A.ID < a.T[i].A.ID:
			if c := b.T[j].C.Mul(k); !c.Zero() {
				r.T = append(r.T, LT{b.T[j].A, c})
			}
			j++
		default:
			if c := a.T[i].C.Add(b.T[j].C.Mul(k)); !c.Zero() {
				r.T = append(r.T, LT{a.T[i].A, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a *Lin) scale(k Rat) *Lin { return (&Lin{}).add(a, k) }

func (a *Lin) isConst() bool { return len(a.T) == 0 }

func (a *Lin) coef(t *Term) Rat {
	for _, lt := range a.T {
		if lt.A == t {
			return lt.C
		}
	}
	return RI(0)
}

// subst replaces atom x by e.
func (a *Lin) subst(x *Term, e *Lin) *Lin {
	c := a.coef(x)
	if c.Zero() {
		return a
	}
	r := &Lin{K: a.K}
	for _, lt := range a.T {
		if lt.A != x {
			r.T = append(r.T, lt)
		}
	}
	return r.add(e, c)
}

func (a *Lin) key() string {
	var b strings.Builder
	b.WriteString(a.K.String())
	for _, lt := range a.T {
		fmt.Fprintf(&b, ";%d*%s", lt.A.ID, lt.C.String())
	}
	return b.String()
}

func linTerm(l *Lin, typ types.Type) *Term {
	if l.isConst() && l.K.d() == 1 {
		return ConstT(constant.MakeInt64(l.K.N), typ)
	}
	if len(l.T) == 1 && l.K.Zero() && l.T[0].C.Is(1) {
		return l.T[0].A
	}
	return T.mk("lin:"+l.key(), Term{K: KLin, Typ: typ, L: l})
}

// Add returns a+b for integer terms.
func Add(a, b *Term) *Term { return linTerm(LinOf(a).add(LinOf(b), RI(1)), a.Typ) }

// Sub returns a-b for integer terms.
func Sub(a, b *Term) *Term { return linTerm(LinOf(a).add(LinOf(b), RI(-1)), a.Typ) }

// AddK returns a+k.
func AddK(a *Term, k int64) *Term { return linTerm(LinOf(a).add(linConst(k), RI(1)), a.Typ) }

// IntVal returns the constant value of an int term.
func IntVal(t *Term) (int64, bool) {
	if t.K == KConst && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}

// StrVal returns the constant value of a string term.
func StrVal(t *Term) (string, bool) {
	if t.K == KConst && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// BoolVal returns the constant value of a bool term.
func BoolVal(t *Term) (bool, bool) {
	if t.K == KConst && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

// GE0 is the predicate l >= 0.
func GE0(l *Lin) *Term {
	l = normIneq(l)
	if l.isConst() {
		return Bool(l.K.Sign() >= 0)
	}
	return T.mk("ge0:"+l.key(), Term{K: KCmp, Typ: TBool, Name: "ge0", L: l})
}

// EQ0 is the predicate l == 0.
func EQ0(l *Lin) *Term {
	if l.isConst() {
		return Bool(l.K.Zero())
	}
	l = normEq(l)
	return T.mk("eq0:"+l.key(), Term{K: KCmp, Typ: TBool, Name: "eq0", L: l})
}

func normEq(l *Lin) *Lin {
	l = integral(l)
	if len(l.T) > 0 && l.T[0].C.Sign() < 0 {
		l = l.scale(RI(-1))
	}
	return l
}

// integral scales l by a positive factor so that the atom coefficients are
// coprime integers.
func integral(l *Lin) *Lin {
	if len(l.T) == 0 {
		return l
	}
	var d int64 = 1
	for _, lt := range l.T {
		d = lcm(d, lt.C.d())
	}
	var g int64
	for _, lt := range l.T {
		g = gcd(g, abs(lt.C.N*(d/lt.C.d())))
	}
	if g == 0 {
		g = 1
	}
	f := R(d, g)
	if f.Is(1) {
		return l
	}
	return l.scale(f)
}

// normIneq scales and tightens an integer inequality l >= 0.
func normIneq(l *Lin) *Lin {
	l = integral(l)
	if len(l.T) > 0 && l.K.d() != 1 {
		l = &Lin{K: RI(floorDiv(l.K.N, l.K.d())), T: l.T}
	}
	return l
}

// ---- substitution and printing

// Contains reports whether sub occurs in t.
func Contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	if t == nil || t.Birth < sub.Birth {
		return false
	}
	for _, a := range t.Args {
		if a != nil && Contains(a, sub) {
			return true
		}
	}
	if t.L != nil {
		for _, lt := range t.L.T {
			if Contains(lt.A, sub) {
				return true
			}
		}
	}
	return false
}

// Subst replaces atoms in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 && t.L == nil {
		return t
	}
	if t.L != nil {
		l := &Lin{K: t.L.K}
		ch := false
		for _, lt := range t.L.T {
			n := Subst(lt.A, m)
			if n != lt.A {
				ch = true
			}
			l = l.add(LinOf(n), lt.C)
		}
		if !ch {
			return t
		}
		if t.K == KCmp {
			if t.Name == "ge0" {
				return GE0(l)
			}
			return EQ0(l)
		}
		return linTerm(l, t.Typ)
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = Subst(a, m)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.K {
	case KClosure:
		return Closure(t.Fn, args)
	case KFieldAddr:
		return FieldAddr(args[0], t.Idx, t.Typ)
	case KIndexAddr:
		return IndexAddr(args[0], args[1], t.Typ)
	case KMapCell:
		return MapCell(args[0], args[1], t.Typ)
	case KStruct:
		return StructT(t.Typ, args)
	case KTuple:
		return Tuple(args...)
	case KSlice:
		return SliceT(t.Typ, args[0], args[1], args[2], args[3])
	case KIface:
		return Iface(t.Typ, args[0], nil)
	case KApp:
		return App(t.Name, t.Typ, args...)
	}
	return t
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 6 {
		return "…"
	}
	list := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.K {
	case KSym, KObj, KGlobal, KFunc, KKappa:
		return t.Name
	case KConst:
		return t.Val.String()
	case KNil:
		return "nil"
	case KLin:
		return linStr(t.L, d)
	case KCmp:
		if t.Name == "ge0" {
			return linStr(t.L, d) + ">=0"
		}
		return linStr(t.L, d) + "==0"
	case KClosure:
		return "closure " + t.Fn.Name()
	case KFieldAddr:
		return t.Args[0].str(d+1) + "." + fieldName(t.Args[0].Typ, t.Idx)
	case KIndexAddr, KMapCell:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KStruct:
		return typeName(t.Typ) + "{" + list(t.Args) + "}"
	case KTuple:
		return "(" + list(t.Args) + ")"
	case KSlice:
		return "slice(" + list(t.Args) + ")"
	case KIface:
		return typeName(t.Typ) + "(" + t.Args[0].str(d+1) + ")"
	case KApp:
		return t.Name + "(" + list(t.Args) + ")"
	}
	return "?"
}

func typeName(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		t = types.Typ[b.Kind()] // byte is uint8, rune is int32
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(ptr types.Type, i int) string {
	if ptr != nil {
		if p, ok := ptr.Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok && i < s.NumFields() {
				return s.Field(i).Name()
			}
		}
	}
	return fmt.Sprint(i)
}

func linStr(l *Lin, d int) string {
	var b strings.Builder
	for i, lt := range l.T {
		if i > 0 {
			b.WriteString("+")
		}
		if !lt.C.Is(1) {
			b.WriteString(lt.C.String() + "*")
		}
		b.WriteString(lt.A.str(d + 1))
	}
	if !l.K.Zero() || len(l.T) == 0 {
		b.WriteString("+" + l.K.String())
	}
	return "<" + b.String() + ">"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}
