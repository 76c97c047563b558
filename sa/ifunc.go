package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("I09", "every entry of the function tables of the calculators is interpreted on arbitrary arguments, with package math, math/cmplx and math/big as functions of their arguments, and compared with the function it names; the handler that calls them is interpreted for every name", checkFunctions)
}

// calcH interprets the functions of a calculator.
type calcH struct {
	c    *Ctx
	l    *langT
	m    *ai.Machine
	elem types.Type // of the values
	rank map[*T]int // the order of the arguments
}

// calculators are the languages whose values have one numeric type.
func calculators(c *Ctx) []*calcH {
	var out []*calcH
	for _, l := range languages(c) {
		p, ok := l.stk.(*types.Pointer)
		if !ok {
			continue
		}
		sl, ok := p.Elem().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); !isRatPtr(sl.Elem()) && (!ok || b.Info()&types.IsNumeric == 0) {
			continue
		}
		out = append(out, &calcH{c: c, l: l, elem: sl.Elem()})
	}
	return out
}

func (h *calcH) machine() *ai.Machine {
	h.m = h.c.Machine()
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	return h.m
}

func bigOf(st *S, x *T) *T {
	if v := bigval(st, x); v != nil {
		return v
	}
	return ai.App("valueof", ai.TInt, x)
}

func (h *calcH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Fn == nil || ci.Fn.Pkg == nil {
		return nil, false
	}
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	fn := ci.Fn
	res := fn.Signature.Results()
	switch path := fn.Pkg.Pkg.Path(); path {
	case "math", "math/cmplx":
		if res.Len() != 1 {
			return nil, false
		}
		if path == "math" && (fn.Name() == "Max" || fn.Name() == "Min") && len(ci.Args) == 2 {
			x, ok := h.rank[ci.Args[0]]
			y, ok2 := h.rank[ci.Args[1]]
			if ok && ok2 {
				if (x < y) == (fn.Name() == "Max") {
					return one(ci.Args[1])
				}
				return one(ci.Args[0])
			}
		}
		if path == "math" && fn.Name() == "Inf" {
			if k, ok := ai.IntVal(ci.Args[0]); ok {
				sign := int64(1)
				if k < 0 {
					sign = -1
				}
				return one(ai.App("math.Inf", res.At(0).Type(), ai.Int(sign)))
			}
		}
		return one(ai.App(path+"."+fn.Name(), res.At(0).Type(), ci.Args...))
	case "math/big":
		recv := fn.Signature.Recv()
		if recv == nil {
			switch fn.Name() {
			case "NewRat":
				o := ai.NewObj("big", res.At(0).Type().(*types.Pointer).Elem())
				v := ai.App("big.frac", ai.TInt, ci.Args...)
				if k, ok := ai.IntVal(ci.Args[1]); ok && k == 1 {
					v = ci.Args[0]
				}
				setBig(st, o, v)
				return one(o)
			case "NewInt":
				o := ai.NewObj("big", res.At(0).Type().(*types.Pointer).Elem())
				setBig(st, o, ci.Args[0])
				return one(o)
			}
			return nil, false
		}
		z := ci.Args[0]
		switch fn.Name() {
		case "Add", "Sub", "Mul", "Quo", "Neg", "Abs", "Inv", "Set", "SetInt", "SetInt64", "SetFrac", "SetFrac64":
			var args []*T
			for _, a := range ci.Args[1:] {
				if _, ok := a.Typ.Underlying().(*types.Pointer); ok || a.K == ai.KObj {
					a = bigOf(st, a)
				}
				args = append(args, a)
			}
			v := ai.App("big."+fn.Name(), ai.TInt, args...)
			switch {
			case strings.HasPrefix(fn.Name(), "Set") && len(args) == 1:
				v = args[0]
			case fn.Name() == "SetFrac" || fn.Name() == "SetFrac64":
				v = ai.App("big.frac", ai.TInt, args...)
				if k, ok := ai.IntVal(args[1]); ok && k == 1 {
					v = args[0]
				}
			}
			setBig(st, z, v)
			return one(z)
		case "Denom", "Num":
			o := ai.NewObj("part", res.At(0).Type().(*types.Pointer).Elem())
			v := bigOf(st, z)
			if i, ok := h.intOf(v); ok {
				if fn.Name() == "Denom" {
					i = ai.Int(1)
				}
				setBig(st, o, i)
				return one(o)
			}
			setBig(st, o, ai.App("big."+fn.Name(), ai.TInt, v))
			return one(o)
		case "IsInt":
			if _, ok := h.intOf(bigOf(st, z)); ok {
				return one(ai.Bool(true))
			}
			return one(ai.App("big.IsInt", ai.TBool, bigOf(st, z)))
		case "Sign":
			return one(ai.App("big.Sign", ai.TInt, bigOf(st, z)))
		case "Int64":
			v := bigOf(st, z)
			if i, ok := h.intOf(v); ok {
				return one(i)
			}
			return one(ai.App("big.Int64", types.Typ[types.Int64], v))
		case "Cmp":
			x, ok := h.rank[z]
			y, ok2 := h.rank[ci.Args[1]]
			if ok && ok2 {
				switch {
				case x < y:
					return one(ai.Int(-1))
				case x > y:
					return one(ai.Int(1))
				}
				return one(ai.Int(0))
			}
		}
	}
	return nil, false
}

// intOf: the value is that of an integer of the program.
func (h *calcH) intOf(v *T) (*T, bool) {
	if v.K == ai.KApp && (strings.HasPrefix(v.Name, "big.") || v.Name == "valueof") {
		return nil, false
	}
	return v, true
}

// same reports whether a result has the wanted value.
func (h *calcH) same(st *S, v, want *T) bool {
	if v == nil || want == nil {
		return false
	}
	if isRatPtr(h.elem) {
		return ratNorm(st, bigOf(st, v)) == ratNorm(st, want)
	}
	return st.Same(v, want) || sameNumber(v, want) || st.Same(cmplxNorm(v), cmplxNorm(want))
}

// cmplxNorm writes the functions of math/cmplx that are defined by one of math as that.
func cmplxNorm(v *T) *T {
	if v == nil || v.K != ai.KApp {
		return v
	}
	f64 := types.Typ[types.Float64]
	part := func(p string) *T { return ai.App(p, f64, v.Args[0]) }
	switch v.Name {
	case "math/cmplx.Abs":
		return ai.App("math.Hypot", f64, part("real"), part("imag"))
	case "math/cmplx.Phase":
		return ai.App("math.Atan2", f64, part("imag"), part("real"))
	case "complex":
		return ai.App("complex", v.Typ, cmplxNorm(v.Args[0]), cmplxNorm(v.Args[1]))
	}
	return v
}

// ratNorm writes differences and quotients as sums and products of negated
// and inverted numbers, and abs by the sign that is known.
func ratNorm(st *S, v *T) *T {
	if v == nil || v.K != ai.KApp || !strings.HasPrefix(v.Name, "big.") {
		return v
	}
	var args []*T
	for _, a := range v.Args {
		args = append(args, ratNorm(st, a))
	}
	neg := func(x *T) *T {
		if x.K == ai.KApp && x.Name == "big.Neg" {
			return x.Args[0]
		}
		if k, ok := ai.IntVal(x); ok {
			return ai.Int(-k)
		}
		return ai.App("big.Neg", ai.TInt, x)
	}
	is := func(x *T, n int64) bool { k, ok := ai.IntVal(x); return ok && k == n }
	pair := func(name string, a, b *T) *T {
		if fmt.Sprint(a) > fmt.Sprint(b) {
			a, b = b, a
		}
		return ai.App(name, ai.TInt, a, b)
	}
	inv := func(x *T) *T { return ai.App("big.Inv", ai.TInt, x) }
	switch v.Name {
	case "big.Neg":
		return neg(args[0])
	case "big.Add":
		return pair("big.Add", args[0], args[1])
	case "big.Sub":
		if is(args[0], 0) {
			return neg(args[1])
		}
		return pair("big.Add", args[0], neg(args[1]))
	case "big.Mul":
		for i, a := range args {
			if is(a, -1) {
				return neg(args[1-i])
			}
		}
		return pair("big.Mul", args[0], args[1])
	case "big.Quo", "big.frac":
		n, d := args[0], args[1]
		if is(n, 1) {
			return inv(d)
		}
		if n.K == ai.KApp && d.K == ai.KApp && n.Name == "big.Denom" && d.Name == "big.Num" && n.Args[0] == d.Args[0] {
			return inv(n.Args[0])
		}
		if n.K == ai.KApp && d.K == ai.KApp && n.Name == "big.Num" && d.Name == "big.Denom" && n.Args[0] == d.Args[0] {
			return n.Args[0]
		}
		return pair("big.Mul", n, inv(d))
	case "big.Abs":
		switch st.Eval(st.BinOp(token.LSS, ai.App("big.Sign", ai.TInt, args[0]), ai.Int(0), ai.TInt, ai.TBool)) {
		case 1:
			return neg(args[0])
		case -1:
			return args[0]
		}
	}
	return ai.App(v.Name, v.Typ, args...)
}

// fresh: a result that is a reference is no operand and operands keep their values.
func (h *calcH) untouched(st *S, args []*T) bool {
	for _, a := range args {
		if bigval(st, a) != nil {
			return false
		}
	}
	return true
}

func (h *calcH) arg(st *S, name string) *T {
	if isRatPtr(h.elem) {
		t := ai.NewSym(name, h.elem)
		st.Assume(ai.App("isnil", ai.TBool, t), false)
		return t
	}
	return ai.FreshVal(st, name, h.elem)
}

func (h *calcH) val(st *S, x *T) *T {
	if isRatPtr(h.elem) {
		return bigOf(st, x)
	}
	return x
}

// meaning finds the operation that a function of two or one values computes.
func (h *calcH) meaning(fn *T) (string, token.Pos) {
	pos := fnPos(fn)
	sig := fn.Fn.Signature
	n := ai.NumIn(sig)
	for i := 0; i < n; i++ {
		if !types.Identical(ai.ParamType(sig, i), h.elem) {
			return "", pos
		}
	}
	if n != 1 && n != 2 {
		return "", pos
	}
	st := h.l.base.Clone()
	h.machine()
	args := []*T{h.arg(st, "a"), h.arg(st, "b")}[:n]
	outs := h.m.CallValue(fn, args, st)
	h.c.Absorb(h.l.rel+" "+fn.Fn.Name(), h.m)
	if len(outs) != 1 || outs[0].Panic != nil || outs[0].Ret == nil || !h.untouched(outs[0].St, args) {
		return "", pos
	}
	o := outs[0]
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		if w := h.opValue(o.St, op, args); w != nil && h.same(o.St, o.Ret, w) {
			return op, pos
		}
		if n == 2 && (op == "+" || op == "*") {
			if w := h.opValue(o.St, op, []*T{args[1], args[0]}); w != nil && h.same(o.St, o.Ret, w) {
				return op, pos
			}
		}
	}
	return "", pos
}

// opValue is the value of an operation.
func (h *calcH) opValue(st *S, op string, args []*T) *T {
	if isRatPtr(h.elem) {
		names := map[string]string{"+": "Add", "-": "Sub", "*": "Mul", "/": "Quo"}
		name := names[op]
		if len(args) == 1 {
			if op != "-" {
				return nil
			}
			name = "Neg"
		}
		if name == "" {
			return nil
		}
		var vs []*T
		for _, a := range args {
			vs = append(vs, bigOf(st, a))
		}
		return ai.App("big."+name, ai.TInt, vs...)
	}
	if len(args) == 1 {
		if op != "-" {
			return nil
		}
		return ai.App("neg", h.elem, args[0])
	}
	b, ok := h.elem.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	if op == "%" {
		if b.Info()&types.IsFloat == 0 {
			return nil
		}
		return ai.App("math.Mod", h.elem, args...)
	}
	tok := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO}[op]
	return st.BinOp(tok, args[0], args[1], h.elem, h.elem)
}

// want is the value a named function must have; nil: no function of that name is known.
func (h *calcH) want(st *S, name string, args []*T) (want *T, fails func(st *S) bool) {
	f64 := types.Typ[types.Float64]
	num := func(k float64) *T { return ai.ConstT(constant.MakeFloat64(k), f64) }
	if isRatPtr(h.elem) {
		if len(args) != 1 {
			return nil, nil
		}
		std := map[string]string{"abs": "Abs", "inv": "Inv", "neg": "Neg", "denom": "Denom", "num": "Num"}[name]
		if std == "" {
			return nil, nil
		}
		return ai.App("big."+std, ai.TInt, bigOf(st, args[0])), nil
	}
	b := h.elem.Underlying().(*types.Basic)
	if b.Info()&types.IsFloat != 0 {
		toInt := func(x *T) *T { return st.Convert(x, h.elem, ai.TInt) }
		switch name {
		case "ln":
			name = "log"
		case "jn", "yn":
			if len(args) != 2 {
				return nil, nil
			}
			return ai.App("math."+strings.Title(name), h.elem, toInt(args[0]), args[1]), nil
		case "ldexp":
			if len(args) != 2 {
				return nil, nil
			}
			return ai.App("math.Ldexp", h.elem, args[0], toInt(args[1])), nil
		case "pow10":
			if len(args) != 1 {
				return nil, nil
			}
			return ai.App("math.Pow10", h.elem, toInt(args[0])), nil
		case "inf":
			if len(args) != 1 {
				return nil, nil
			}
			sign := int64(1)
			if st.Eval(ai.App("<", ai.TBool, args[0], num(0))) > 0 {
				sign = -1
			}
			return ai.App("math.Inf", h.elem, ai.Int(sign)), nil
		}
		return h.std("math", name, args), nil
	}
	real := func(x *T) *T { return ai.App("real", f64, x) }
	imag := func(x *T) *T { return ai.App("imag", f64, x) }
	twoReal := func(w *T) (*T, func(*S) bool) {
		return w, func(s *S) bool {
			for _, a := range args {
				if s.Eval(s.Eq(imag(a), num(0))) < 0 {
					return true
				}
			}
			return false
		}
	}
	switch {
	case (name == "abs" || name == "phase") && len(args) == 1:
		return ai.App("complex", h.elem, ai.App("math/cmplx."+strings.Title(name), f64, args[0]), num(0)), nil
	case name == "real" && len(args) == 1:
		return ai.App("complex", h.elem, real(args[0]), num(0)), nil
	case name == "imag" && len(args) == 1:
		return ai.App("complex", h.elem, imag(args[0]), num(0)), nil
	case name == "rect" && len(args) == 2:
		return twoReal(ai.App("math/cmplx.Rect", h.elem, real(args[0]), real(args[1])))
	case name == "complex" && len(args) == 2:
		return twoReal(ai.App("complex", h.elem, real(args[0]), real(args[1])))
	}
	return h.std("math/cmplx", name, args), nil
}

// std is the value of the standard function of that name, if there is one
// that takes the values as they are.
func (h *calcH) std(path, name string, args []*T) *T {
	f := h.stdFunc(path, name)
	if f == nil {
		return nil
	}
	sig := f.Signature
	if sig.Params().Len() != len(args) || sig.Variadic() || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), h.elem) {
		return nil
	}
	for i := range args {
		if !types.Identical(sig.Params().At(i).Type(), h.elem) {
			return nil
		}
	}
	return ai.App(path+"."+f.Name(), h.elem, args...)
}

func (h *calcH) stdFunc(path, name string) *ssa.Function {
	for _, p := range h.c.P.Prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Func(strings.Title(name))
		}
	}
	return nil
}

// arity is the number of arguments of the function of that name (-1: any,
// -2: not known).
func (h *calcH) arity(name string) int {
	if name == "max" || name == "min" {
		if !isComplexElem(h.elem) {
			return -1
		}
		return -2
	}
	st := h.l.base.Clone()
	for n := 0; n <= 3; n++ {
		var args []*T
		for i := 0; i < n; i++ {
			args = append(args, h.arg(st, "a"))
		}
		if w, _ := h.want(st, name, args); w != nil {
			return n
		}
	}
	return -2
}

func isComplexElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func checkFunctions(c *Ctx) {
	c.Rule("an entry of the function table of a calculator takes the number of arguments of the function it names, yields the value of that function for them in order, and leaves them unchanged; max and min yield the largest and the smallest of any number of arguments, 0 for none; the handler of calls hands the function bound to the name, the stack and the number of arguments given to the call of functions once and passes its error on; another name is an error and the stack is left alone")
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	hs := calculators(c)
	if len(hs) < 3 {
		c.Missing(fmt.Sprintf("the calculators (%d found)", len(hs)))
	}
	for _, h := range hs {
		names := h.names()
		known := 0
		for _, name := range names {
			fn := h.l.fn(name)
			if fn == nil || fn.Fn == nil {
				c.Missing("the function " + name + " of " + h.l.rel)
				continue
			}
			switch n := h.arity(name); n {
			case -2:
				c.Case("%s %s: no standard function has this name", h.l.rel, name)
			case -1:
				known++
				h.extremum(name, fn)
			default:
				known++
				h.function(name, fn, n)
			}
		}
		if known == 0 {
			c.Missing("the functions of " + h.l.rel)
		}
		have := map[string]bool{}
		for _, name := range names {
			have[name] = true
		}
		c.Oblig++
		for _, name := range strings.Fields(offered[h.l.rel]) {
			if !have[name] {
				c.Violate(h.l.tableAt(), h.l.rel, "the function "+name+" is not offered", nil)
			}
		}
		h.calls(names)
	}
}

func (h *calcH) names() []string {
	var out []string
	keys, ok := h.l.base.MapKeys(h.l.table)
	if !ok {
		h.c.Missing("the names of the function table of " + h.l.rel)
	}
	for _, k := range keys {
		if s, ok := ai.StrVal(k); ok && !strings.HasPrefix(s, "$") {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func (h *calcH) function(name string, fn *T, n int) {
	what := h.l.rel + " " + name
	pos := fnPos(fn)
	h.machine()
	st := h.l.base.Clone()
	sig := fn.Fn.Signature
	ok := ai.NumIn(sig) == n && !sig.Variadic() && sig.Results().Len() == 1
	if !h.m.Check(st, ok, h.tablePos(pos), "%s takes %d arguments instead of %d", what, ai.NumIn(sig), n) {
		h.c.Absorb(what, h.m)
		return
	}
	var args []*T
	for i := 0; i < n; i++ {
		t := ai.ParamType(sig, i)
		if !types.Identical(t, h.elem) {
			h.m.Check(st, false, h.tablePos(pos), "%s takes a %s", what, t)
			h.c.Absorb(what, h.m)
			return
		}
		args = append(args, h.arg(st, string(rune('a'+i))))
	}
	rets := 0
	for _, o := range h.m.CallValue(fn, args, st) {
		w, fails := h.want(o.St, name, args)
		bad := fails != nil && fails(o.St)
		if o.Panic != nil {
			h.m.Check(o.St, bad, h.tablePos(pos), "%s fails for arguments it is defined for", what)
			continue
		}
		rets++
		h.m.Check(o.St, !bad, h.tablePos(pos), "%s accepts an argument that is no real number", what)
		h.m.Check(o.St, h.same(o.St, o.Ret, w), h.tablePos(pos), "%s yields %s instead of %s", what, h.val(o.St, o.Ret), w)
		h.m.Check(o.St, h.untouched(o.St, args), h.tablePos(pos), "%s changes an argument", what)
	}
	h.m.Check(st, rets > 0, h.tablePos(pos), "%s never returns", what)
	h.c.Absorb(what, h.m)
	h.c.Case("%s: %d arguments", what, n)
}

// tablePos: functions of other packages are reported at the table.
func (h *calcH) tablePos(p token.Pos) token.Pos {
	if f := h.c.P.Prog.Fset.Position(p).Filename; p.IsValid() && strings.HasPrefix(f, repoDir) {
		return p
	}
	if f := h.c.P.Pkg(h.l.rel).Func("init"); f != nil {
		if v, ok := h.c.P.Pkg(h.l.rel).Members["Fntable"].(*ssa.Global); ok {
			return v.Pos()
		}
	}
	return p
}

// extremum checks max and min for every order of up to four arguments.
func (h *calcH) extremum(name string, fn *T) {
	what := h.l.rel + " " + name
	pos := h.tablePos(fnPos(fn))
	sig := fn.Fn.Signature
	h.machine()
	st0 := h.l.base.Clone()
	sl, isSlice := types.Type(nil), false
	if ai.NumIn(sig) == 1 {
		sl = ai.ParamType(sig, 0)
		s, ok := sl.Underlying().(*types.Slice)
		isSlice = ok && types.Identical(s.Elem(), h.elem)
	}
	if !h.m.Check(st0, sig.Variadic() && isSlice && sig.Results().Len() == 1, pos, "%s does not take any number of arguments", what) {
		h.c.Absorb(what, h.m)
		return
	}
	top := 3
	if h.c.Tier == "thorough" {
		top = 4
	}
	cases := 0
	for n := 0; n <= top; n++ {
		for _, ranks := range weakOrders(n) {
			cases++
			st := h.l.base.Clone()
			h.rank = map[*T]int{}
			var args []*T
			o := ai.NewObj("args", types.NewArray(h.elem, int64(n)))
			for i := 0; i < n; i++ {
				a := h.arg(st, string(rune('a'+i)))
				args = append(args, a)
				h.rank[a] = ranks[i]
				st.Store(ai.IndexAddr(o, ai.Int(int64(i)), types.NewPointer(h.elem)), a, h.elem)
			}
			if !isRatPtr(h.elem) {
				for i, a := range args {
					for j, b := range args {
						if i != j {
							st.Assume(ai.App("<", ai.TBool, a, b), ranks[i] < ranks[j])
							st.Assume(ai.App("<=", ai.TBool, a, b), ranks[i] <= ranks[j])
						}
					}
				}
			}
			arg := ai.Nil(sl)
			if n > 0 {
				arg = ai.SliceT(sl, o, ai.Int(0), ai.Int(int64(n)), ai.Int(int64(n)))
			}
			rets := 0
			for _, out := range h.m.CallValue(fn, []*T{arg}, st) {
				if !h.m.Check(out.St, out.Panic == nil && out.Ret != nil, pos, "%s fails for %d arguments", what, n) {
					continue
				}
				rets++
				if n == 0 {
					zero := h.isZero(out.St, out.Ret)
					h.m.Check(out.St, zero, pos, "%s of no arguments is %s", what, h.val(out.St, out.Ret))
					continue
				}
				best := ranks[0]
				for _, r := range ranks {
					if (r > best) == (name == "max") && r != best {
						best = r
					}
				}
				ok := false
				for i, a := range args {
					if ranks[i] == best && (out.St.Same(out.Ret, a) || isRatPtr(h.elem) && bigOf(out.St, out.Ret) == bigOf(out.St, a)) {
						ok = true
					}
				}
				h.m.Check(out.St, ok, pos, "%s of %d arguments in the order %v is %s", what, n, ranks, h.val(out.St, out.Ret))
				h.m.Check(out.St, h.untouched(out.St, args), pos, "%s changes an argument", what)
			}
			h.m.Check(st, rets > 0, pos, "%s of %d arguments never returns", what, n)
		}
	}
	h.rank = nil
	h.c.Absorb(what, h.m)
	h.c.Case("%s: %d orders of up to %d arguments", what, cases, top)
}

func (h *calcH) isZero(st *S, v *T) bool {
	if !isRatPtr(h.elem) {
		return sameNumber(v, ai.ConstT(constant.MakeFloat64(0), types.Typ[types.Float64]))
	}
	// a number that was never set
	w := bigval(st, v)
	if w == nil {
		return v.K == ai.KObj
	}
	k, ok := ai.IntVal(w)
	return ok && k == 0
}

// weakOrders lists the orders of n values, ties included.
func weakOrders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	r := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			used := map[int]bool{}
			max := 0
			for _, x := range r {
				used[x] = true
				if x > max {
					max = x
				}
			}
			if len(used) == max+1 {
				out = append(out, append([]int{}, r...))
			}
			return
		}
		for x := 0; x < n; x++ {
			r[i] = x
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

// calls checks the handler that calls a function by its name.
func (h *calcH) calls(names []string) {
	var mark, lenMark string
	for _, r := range h.l.g.order {
		h.l.g.rules[r].marks(func(m string, of *rnode) {
			fn := h.l.fn("$" + m)
			if fn == nil || fn.Fn == nil {
				return
			}
			switch sig := fn.Fn.Signature; {
			case isLenMark(m):
				lenMark = m
			case h.l.recv(sig) == 'i' && ai.NumIn(sig) == 2 && types.Identical(ai.ParamType(sig, 1), ai.TString):
				mark = m
			}
		})
	}
	if mark == "" || lenMark == "" {
		h.c.Missing("the marks of calls of " + h.l.rel)
		return
	}
	what := h.l.rel + " " + mark
	fn, ar := h.l.fn("$"+mark), h.l.fn("$"+lenMark)
	pos := fnPos(fn)
	callFn := h.c.Func(relUtil, "Call")
	if callFn == nil {
		return
	}
	cases := append(append([]string{}, names...), "")
	for _, name := range cases {
		for _, given := range []bool{true, false} {
			if !given && name != "" && name != names[0] {
				continue
			}
			h.machine()
			st := h.l.base.Clone()
			sh := newStackH(h.c, h.l.rel)
			if sh == nil {
				return
			}
			ip := ai.NewSym("ip", types.NewPointer(h.l.t))
			st.Assume(ai.App("isnil", ai.TBool, ip), false)
			stk := h.stackField(st, ip)
			if stk == nil {
				h.c.Missing("the stack of " + h.l.rel)
				return
			}
			st.Assume(ai.App("isnil", ai.TBool, stk), false)
			n0 := st.Len(st.Load(stk, sh.t))
			k := ai.NewSym("n", ai.TInt)
			st.Assume(ai.GE0(ai.LinOf(k)), true)
			arg := ai.Str(name)
			label := what + " of " + name
			if name == "" {
				label = what + " of any other name"
				arg = ai.NewSym("name", ai.TString)
				for _, s := range names {
					st.Assume(st.Eq(arg, ai.Str(s)), false)
				}
				if keys, ok := h.l.base.MapKeys(h.l.table); ok {
					for _, key := range keys {
						st.Assume(st.Eq(arg, key), false)
					}
				}
			}
			if given {
				sts := h.m.CallValue(ar, []*T{stk, k}, st)
				if !h.m.Check(st, len(sts) == 1 && sts[0].Panic == nil, fnPos(ar), "%s: the number of arguments is not put on the stack", h.l.rel) {
					continue
				}
				st = sts[0].St
			} else {
				st.Assume(st.Eq(n0, ai.Int(0)), true)
				label += " without a number of arguments"
			}
			n1 := st.Len(st.Load(stk, sh.t))
			want := h.l.fn(name)
			h.m.Hook = func(m *ai.Machine, s *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.Fn != callFn {
					return h.hook(m, s, ci)
				}
				logged(s, "call")
				a := ci.Args
				ok := len(a) >= 3
				if ok {
					x := a[0]
					if x.K == ai.KIface {
						x = x.Args[0]
					}
					h.m.Check(s, s.Same(x, stk), ci.Pos(), "%s: the function is called with another stack", label)
					f := a[1]
					if f.K == ai.KIface {
						f = f.Args[0]
					}
					h.m.Check(s, want != nil && f == want, ci.Pos(), "%s calls %s", label, f)
					h.m.Check(s, s.Same(h.plainInt(s, a[2]), k), ci.Pos(), "%s passes %s arguments instead of those given", label, a[2])
					h.m.Check(s, s.EQ(s.Len(s.Load(stk, sh.t)), n0), ci.Pos(), "%s leaves the number of arguments on the stack", label)
				}
				h.m.Check(s, ok, ci.Pos(), "%s", label)
				e := s.Clone()
				err := e.NewError(ai.Str("the call failed"))
				e.Ghost["callerr"] = err
				return []ai.Outcome{{St: s, Ret: ai.Nil(errType())}, {St: e, Ret: err}}, true
			}
			for _, o := range h.m.CallValue(fn, []*T{ip, arg}, st) {
				failed := o.Panic != nil
				if !failed {
					e := o.Ret
					if !h.m.Check(o.St, e != nil && o.St.Eval(o.St.IsNil(e)) != 0, pos, "%s: it is not known whether it fails", label) {
						continue
					}
					failed = o.St.Eval(o.St.IsNil(e)) < 0
				}
				log := theLog(o.St)
				switch {
				case name == "":
					h.m.Check(o.St, failed && log == "", pos, "%s is no error", label)
					h.m.Check(o.St, o.St.EQ(o.St.Len(o.St.Load(stk, sh.t)), n1), pos, "%s changes the stack", label)
				case !given:
					h.m.Check(o.St, failed && log == "", pos, "%s is no error", label)
				default:
					h.m.Check(o.St, strings.Count(log, "call") == 1, pos, "%s calls the function %d times", label, strings.Count(log, "call"))
					h.m.Check(o.St, failed == (o.St.Ghost["callerr"] != nil), pos, "%s: the error of the call is not its own", label)
				}
			}
			h.c.Absorb(label, h.m)
		}
	}
	h.c.Case("%s: %d names and any other", what, len(names))
}

// plainInt undoes the conversions of a small integer to a number and back.
func (h *calcH) plainInt(st *S, x *T) *T {
	for x.K == ai.KApp && len(x.Args) == 1 {
		switch x.Name {
		case "conv:int->float64", "conv:float64->int", "conv:float64->int64", "conv:int64->int":
			x = x.Args[0]
			continue
		}
		break
	}
	return x
}

// stackField finds the stack of an interpreter.
func (h *calcH) stackField(st *S, ip *T) *T {
	fn := ai.MethodOf(h.c.P.Prog, types.NewPointer(h.l.t), h.c.P.Pkg(h.l.rel).Pkg, "Stack")
	if fn == nil {
		return nil
	}
	outs := h.m.Run(fn, []*T{ip}, nil, st)
	if len(outs) != 1 || outs[0].Ret == nil || outs[0].Ret.K != ai.KIface {
		return nil
	}
	*st = *outs[0].St
	return outs[0].Ret.Args[0]
}

// offered are the functions the calculators have always had.
var offered = map[string]string{
	"tpl/number": "abs acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh dim erf erfc exp exp2 expm1 floor gamma hypot inf j0 j1 jn ldexp ln log log10 log1p log2 logb max min mod NaN nextafter pow pow10 remainder sin sinh sqrt tan tanh trunc y0 y1 yn",
	"tpl/cmplx":  "abs acos acosh asin asinh atan atanh conj cos cosh cot exp inf log log10 NaN phase pow rect sin sinh sqrt tan tanh real imag complex",
	"tpl/rat":    "abs inv max min denom num",
}

func (l *langT) tableAt() token.Pos {
	if n, ok := l.t.(*types.Named); ok {
		return n.Obj().Pos()
	}
	return token.NoPos
}
