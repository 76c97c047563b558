package main

import (
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("I10", "the parsing functions and the handlers of the literals of every shipped language are interpreted on a text of each class of literals, with strconv and math/big as functions that yield the value of the text they are given, or fail", checkLiterals)
}

// litClass is a class of literal texts.
type litClass struct {
	name   string
	char   byte // kind: 'd' decimal, 'x' hexadecimal, 'o' octal, 'f' float with a point or exponent, '0' the text "0", 'i' imaginary, 's' string, 'c' char
	first  int  // known first characters (0: not known)
	second int
	lo, hi int    // range of the first unknown character
	has    string // which of . e E a float has
}

func numberClasses() []litClass {
	return []litClass{
		{name: "decimal integer", char: 'd', lo: '1', hi: '9'},
		{name: "the integer 0", char: '0'},
		{name: "hexadecimal integer 0x", char: 'x', first: '0', second: 'x'},
		{name: "hexadecimal integer 0X", char: 'x', first: '0', second: 'X'},
		{name: "octal integer", char: 'o', first: '0', lo: '0', hi: '7'},
	}
}

func floatClasses() []litClass {
	var out []litClass
	for _, has := range []string{".", "e", "E", ".e", ".E"} {
		out = append(out,
			litClass{name: "float with " + has, char: 'f', lo: '1', hi: '9', has: has},
			litClass{name: "float with " + has + " starting with 0 and a digit", char: 'f', first: '0', lo: '0', hi: '9', has: has})
		switch {
		case len(has) == 1 && has != ".":
			out = append(out, litClass{name: "float starting with 0" + has, char: 'f', first: '0', second: int(has[0]), has: has})
		default:
			out = append(out,
				litClass{name: "float with " + has + " starting with a point", char: 'f', first: '.', lo: '0', hi: '9', has: has},
				litClass{name: "float with " + has + " starting with 0.", char: 'f', first: '0', second: '.', has: has})
		}
	}
	return out
}

// litH interprets the functions on one literal.
type litH struct {
	c   *Ctx
	m   *ai.Machine
	cl  litClass
	lit *T
	rat *types.Named
	bi  *types.Named
}

func chr(k int) *T { return ai.ConstT(constant.MakeInt64(int64(k)), types.Typ[types.Uint8]) }

// text makes the literal.
func (h *litH) text(st *S) {
	if h.cl.char == '0' {
		h.lit = ai.Str("0")
		return
	}
	h.lit = ai.NewSym("lit", ai.TString)
	at := func(i int) *T { return st.StrAt(h.lit, ai.Int(int64(i)), types.Typ[types.Uint8]) }
	n, k := 1, 0
	for _, b := range []int{h.cl.first, h.cl.second} {
		if b != 0 {
			st.Assume(st.Eq(at(k), chr(b)), true)
			k++
			n++
		}
	}
	if h.cl.char == 'f' && n < 2 || h.cl.char == 'c' || h.cl.char == 's' {
		n = 2
	}
	if h.cl.char == 'i' {
		n = 2
	}
	if h.cl.lo != 0 {
		st.Assume(ai.GE0(ai.LinOf(ai.AddK(at(k), int64(-h.cl.lo)))), true)
		st.Assume(ai.GE0(ai.LinOf(ai.Sub(ai.Int(int64(h.cl.hi)), at(k)))), true)
	}
	st.Assume(ai.GE0(ai.LinOf(ai.AddK(st.Len(h.lit), int64(-n)))), true)
	if h.cl.char == 'd' || h.cl.char == 'f' && h.cl.second == 0 {
		// no x behind the first digit
		st.Assume(st.Eq(at(1), chr('x')), false)
		st.Assume(st.Eq(at(1), chr('X')), false)
	}
}

// part reports whether s is lit[lo:len(lit)-hi].
func (h *litH) part(st *S, s *T, lo, hi int64) bool {
	return st.Same(s, st.Substr(h.lit, ai.Int(lo), ai.AddK(st.Len(h.lit), -hi)))
}

func (h *litH) integer(st *S, s *T, base int64) bool {
	switch h.cl.char {
	case 'd':
		return st.Same(s, h.lit) && (base == 10 || base == 0)
	case 'x':
		return st.Same(s, h.lit) && base == 0 || h.part(st, s, 2, 0) && base == 16
	case 'o':
		return st.Same(s, h.lit) && (base == 0 || base == 8) || h.part(st, s, 1, 0) && base == 8
	}
	return false
}

func (h *litH) isNamed(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == name
}

// bigval is the value that a fresh number of math/big was given.
func bigval(st *S, o *T) *T { return st.Ghost["big:"+o.String()] }

func setBig(st *S, o, v *T) { st.Ghost["big:"+o.String()] = v }

func (h *litH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Fn == nil || ci.Fn.Pkg == nil {
		return nil, false
	}
	fn := ci.Fn
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	fail := func(right bool, ok ai.Outcome, v *T, e *S) ([]ai.Outcome, bool) {
		err := e.NewError(ai.Str("invalid literal"))
		if right {
			e.Ghost["failed"] = ai.Bool(true)
		}
		bad := ai.Outcome{St: e, Ret: ai.Tuple(v, err)}
		if ok.St == nil {
			return []ai.Outcome{bad}, true
		}
		return []ai.Outcome{ok, bad}, true
	}
	res := fn.Signature.Results()
	switch fn.Pkg.Pkg.Path() {
	case "strconv":
		switch fn.Name() {
		case "ParseInt", "Atoi":
			s, base := ci.Args[0], int64(10)
			rt := res.At(0).Type()
			if fn.Name() == "ParseInt" {
				b, ok := ai.IntVal(ci.Args[1])
				bits, ok2 := ai.IntVal(ci.Args[2])
				if !ok || !ok2 || bits != 64 && bits != 0 {
					return nil, false
				}
				base = b
			}
			if cs, ok := ai.StrVal(s); ok {
				v, err := strconv.ParseInt(cs, int(base), 64)
				if err != nil {
					return fail(false, ai.Outcome{}, ai.Zero(rt), st)
				}
				return one(ai.Tuple(ai.ConstT(constant.MakeInt64(v), rt), ai.Nil(errType())))
			}
			e := st.Clone()
			switch {
			case h.integer(st, s, base):
				// too large, or the value
				return fail(true, ai.Outcome{St: st, Ret: ai.Tuple(ai.App("lit:int", rt, h.lit), ai.Nil(errType()))}, ai.Zero(rt), e)
			case h.cl.char == 'f' && (st.Same(s, h.lit) || h.part(st, s, 1, 0)):
				return fail(false, ai.Outcome{}, ai.Zero(rt), st)
			}
			return fail(false, ai.Outcome{St: st, Ret: ai.Tuple(ai.App("other:int", rt, s, ai.Int(base)), ai.Nil(errType()))}, ai.Zero(rt), e)
		case "ParseFloat":
			s := ci.Args[0]
			rt := res.At(0).Type()
			if b, ok := ai.IntVal(ci.Args[1]); !ok || b != 64 {
				return nil, false
			}
			if cs, ok := ai.StrVal(s); ok {
				v, err := strconv.ParseFloat(cs, 64)
				if err != nil || math.IsInf(v, 0) || math.IsNaN(v) {
					return fail(false, ai.Outcome{}, ai.Zero(rt), st)
				}
				return one(ai.Tuple(ai.ConstT(constant.MakeFloat64(v), rt), ai.Nil(errType())))
			}
			e := st.Clone()
			v := ai.App("other:float", rt, s)
			switch h.cl.char {
			case 'd', 'f':
				if st.Same(s, h.lit) {
					v = ai.App("lit:float", rt, h.lit)
				}
			case 'x':
				if st.Same(s, h.lit) {
					return fail(false, ai.Outcome{}, ai.Zero(rt), st)
				}
			case 'i':
				if h.part(st, s, 0, 1) {
					v = ai.App("lit:float", rt, h.lit)
				}
			}
			return fail(v.Name == "lit:float", ai.Outcome{St: st, Ret: ai.Tuple(v, ai.Nil(errType()))}, ai.Zero(rt), e)
		case "Unquote":
			v := ai.App("unquoted", ai.TString, ci.Args[0])
			return fail(st.Same(ci.Args[0], h.lit), ai.Outcome{St: st, Ret: ai.Tuple(v, ai.Nil(errType()))}, ai.Str(""), st.Clone())
		case "UnquoteChar":
			e := st.Clone()
			q, _ := ai.IntVal(ci.Args[1])
			ok := h.part(st, ci.Args[0], 1, 1) && q == '\''
			err := e.NewError(ai.Str("invalid char"))
			e.Ghost["failed"] = ai.Bool(true)
			outs := []ai.Outcome{{St: e, Ret: ai.Tuple(ai.Zero(res.At(0).Type()), ai.Bool(false), ai.Str(""), err)}}
			for _, multi := range []bool{false, true} {
				for _, more := range []bool{false, true} {
					s := st.Clone()
					v := ai.FreshVal(s, "rune", res.At(0).Type())
					tail := ai.Str("")
					if more {
						tail = ai.FreshVal(s, "tail", ai.TString)
						s.Assume(ai.GE0(ai.LinOf(ai.AddK(s.Len(tail), -1))), true)
					}
					s.Assume(ai.GE0(ai.LinOf(v)), true)
					if multi {
						s.Assume(ai.GE0(ai.LinOf(ai.AddK(v, -128))), true)
					} else {
						s.Assume(ai.GE0(ai.LinOf(ai.Sub(ai.Int(255), v))), true)
					}
					if ok {
						s.Ghost["rune"], s.Ghost["multi"], s.Ghost["tail"] = v, ai.Bool(multi), ai.Bool(more)
					}
					outs = append(outs, ai.Outcome{St: s, Ret: ai.Tuple(v, ai.Bool(multi), tail, ai.Nil(errType()))})
				}
			}
			return outs, true
		}
	case "math":
		switch fn.Name() {
		case "Inf", "NaN":
			return one(ai.App("math."+fn.Name(), res.At(0).Type(), ci.Args...))
		}
	case "strings":
		return h.strings(st, ci)
	case "math/big":
		return h.big(st, ci)
	}
	return nil, false
}

// strings answers questions about the characters of the literal.
func (h *litH) strings(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	if len(ci.Args) != 2 || h.lit == nil || h.lit.K == ai.KConst {
		return nil, false
	}
	whole := st.Same(ci.Args[0], h.lit)
	rest := h.cl.first != '.' && h.cl.second == 0 && h.part(st, ci.Args[0], 1, 0)
	if !whole && !rest {
		return nil, false
	}
	var set string
	if s, ok := ai.StrVal(ci.Args[1]); ok {
		set = s
	} else if b, ok := ai.IntVal(ci.Args[1]); ok {
		set = string(rune(b))
	} else {
		return nil, false
	}
	has := func(r string) int { // the literal has one of the characters r
		yes := -1
		for _, ch := range r {
			switch {
			case !strings.ContainsRune(".eE", ch), h.cl.char == 'x' && ch != '.':
				return 0
			case strings.ContainsRune(h.cl.has, ch):
				yes = 1
			}
		}
		return yes
	}
	switch ci.Fn.Name() {
	case "IndexAny", "IndexByte", "IndexRune", "LastIndexAny", "LastIndexByte":
		v := ai.FreshVal(st, "index", ai.TInt)
		switch has(set) {
		case -1:
			return one(ai.Int(-1))
		case 1:
			st.Assume(ai.GE0(ai.LinOf(v)), true)
		default:
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(v, 1))), true)
		}
		st.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(st.Len(ci.Args[0]), v), -1))), true)
		return one(v)
	case "ContainsAny", "ContainsRune":
		switch has(set) {
		case -1:
			return one(ai.Bool(false))
		case 1:
			return one(ai.Bool(true))
		}
	case "HasPrefix":
		if !whole || set == "" {
			return nil, false
		}
		r := ai.TBool
		_ = r
		cond := ai.Bool(true)
		n := int64(len(set))
		if st.Eval(ai.GE0(ai.LinOf(ai.AddK(st.Len(h.lit), -n)))) <= 0 {
			return nil, false
		}
		known := true
		for i := 0; i < len(set); i++ {
			switch st.Eval(st.Eq(st.StrAt(h.lit, ai.Int(int64(i)), types.Typ[types.Uint8]), chr(int(set[i])))) {
			case -1:
				return one(ai.Bool(false))
			case 0:
				known = false
			}
		}
		if known {
			return one(cond)
		}
	}
	return nil, false
}

// big is the arithmetic of math/big that a literal needs.
func (h *litH) big(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	fn := ci.Fn
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	fresh := func(t types.Type, v *T) ([]ai.Outcome, bool) {
		o := ai.NewObj("big", t.(*types.Pointer).Elem())
		setBig(st, o, v)
		return one(o)
	}
	res := fn.Signature.Results()
	num := func(v *T) *T {
		if k, ok := ai.IntVal(v); ok {
			return ai.Int(k)
		}
		if v.K == ai.KApp && v.Name == "lit:int" {
			return ai.App("lit:big", ai.TInt, h.lit)
		}
		return ai.App("other:big", ai.TInt, v)
	}
	recv := fn.Signature.Recv()
	if recv == nil {
		switch fn.Name() {
		case "NewInt":
			return fresh(res.At(0).Type(), num(ci.Args[0]))
		case "NewRat":
			if k, ok := ai.IntVal(ci.Args[1]); ok && k == 1 {
				return fresh(res.At(0).Type(), num(ci.Args[0]))
			}
		}
		return nil, false
	}
	o := ci.Args[0]
	switch {
	case h.isNamed(recv.Type(), "Int") && fn.Name() == "SetString":
		b, _ := ai.IntVal(ci.Args[2])
		if cs, ok := ai.StrVal(ci.Args[1]); ok {
			v, err := strconv.ParseInt(cs, int(b), 64)
			if err == nil {
				setBig(st, o, ai.Int(v))
				return one(ai.Tuple(o, ai.Bool(true)))
			}
			return one(ai.Tuple(ai.Nil(res.At(0).Type()), ai.Bool(false)))
		}
		if h.integer(st, ci.Args[1], b) {
			setBig(st, o, ai.App("lit:big", ai.TInt, h.lit))
			return one(ai.Tuple(o, ai.Bool(true)))
		}
		return h.orBad(st, o, ai.App("other:big", ai.TInt, ci.Args[1], ai.Int(b)), res)
	case h.isNamed(recv.Type(), "Rat") && fn.Name() == "SetString":
		if cs, ok := ai.StrVal(ci.Args[1]); ok {
			if v, err := strconv.ParseInt(cs, 10, 64); err == nil {
				setBig(st, o, ai.Int(v))
				return one(ai.Tuple(o, ai.Bool(true)))
			}
		}
		if (h.cl.char == 'd' || h.cl.char == 'x') && st.Same(ci.Args[1], h.lit) {
			setBig(st, o, ai.App("lit:big", ai.TInt, h.lit))
			return one(ai.Tuple(o, ai.Bool(true)))
		}
		return h.orBad(st, o, ai.App("other:big", ai.TInt, ci.Args[1]), res)
	case h.isNamed(recv.Type(), "Rat") && fn.Name() == "SetInt", fn.Name() == "Set":
		v := bigval(st, ci.Args[1])
		if v == nil {
			v = ai.App("other:big", ai.TInt, ci.Args[1])
		}
		setBig(st, o, v)
		return one(o)
	case fn.Name() == "SetInt64":
		setBig(st, o, num(ci.Args[1]))
		return one(o)
	}
	return nil, false
}

// orBad: the text is read as v or not at all.
func (h *litH) orBad(st *S, o, v *T, res *types.Tuple) ([]ai.Outcome, bool) {
	if h.cl.char == 'b' {
		return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.Nil(res.At(0).Type()), ai.Bool(false))}}, true
	}
	e := st.Clone()
	setBig(st, o, v)
	return []ai.Outcome{{St: st, Ret: ai.Tuple(o, ai.Bool(true))}, {St: e, Ret: ai.Tuple(ai.Nil(res.At(0).Type()), ai.Bool(false))}}, true
}

func checkLiterals(c *Ctx) {
	c.Rule("an integer text is read in base 16 behind 0x, in base 8 behind 0, else in base 10, a float text as such, by the number it spells or with an error; the handler of a literal leaves all values on the stack and puts the value of the text on top, of the type of the language, or panics and puts nothing there; rational numbers are read whatever their size; a named constant of the number calculator has the value of its name, any other name fails")
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	for _, name := range []string{"ParseInt", "ParseFloat"} {
		fn := c.Func(relInterp, name)
		if fn == nil {
			continue
		}
		cls := numberClasses()
		if name == "ParseFloat" {
			cls = append(cls, floatClasses()...)
		}
		for _, cl := range cls {
			parseLit(c, fn, cl)
		}
	}
	for _, l := range languages(c) {
		l.literals(c)
	}
}

// parseLit checks what a text is read as.
func parseLit(c *Ctx, fn *ssa.Function, cl litClass) {
	h := &litH{c: c, cl: cl, m: c.Machine()}
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	st := c.P.Base("tpl", relInterp)
	h.text(st)
	rt := fn.Signature.Results().At(0).Type()
	what := fn.Name() + " of a " + cl.name
	values, errs := 0, 0
	for _, o := range h.m.Run(fn, []*T{h.lit}, nil, st) {
		if !h.m.Check(o.St, o.Panic == nil && o.Ret != nil && len(o.Ret.Args) == 2, fn.Pos(), "%s panics", what) {
			continue
		}
		v, err := o.Ret.Args[0], o.Ret.Args[1]
		switch o.St.Eval(o.St.IsNil(err)) {
		case -1:
			errs++
			h.m.Check(o.St, o.St.Ghost["failed"] != nil, fn.Pos(), "%s fails though the text is a number", what)
		case 1:
			values++
			want := h.value(o.St, rt)
			h.m.Check(o.St, want != nil && (o.St.Same(v, want) || sameNumber(v, want)), fn.Pos(), "%s is %s", what, v)
		default:
			h.m.Check(o.St, false, fn.Pos(), "%s: it is not known whether it fails", what)
		}
	}
	h.m.Check(st, values > 0 && (errs > 0 || cl.char == '0'), fn.Pos(), "%s: %d ways to succeed, %d to fail", what, values, errs)
	c.Absorb(what, h.m)
	c.Case("%s", what)
}

func sameNumber(a, b *T) bool {
	x, y := a, b
	return x.K == ai.KConst && y.K == ai.KConst && constant.Compare(constant.ToFloat(x.Val), 39 /* token.EQL */, constant.ToFloat(y.Val))
}

// value is the number the text spells.
func (h *litH) value(st *S, rt types.Type) *T {
	float := rt.Underlying().(*types.Basic).Info()&types.IsFloat != 0
	switch h.cl.char {
	case '0':
		return ai.Zero(rt)
	case 'f':
		if !float {
			return nil
		}
		return ai.App("lit:float", rt, h.lit)
	case 'd':
		if float {
			return ai.App("lit:float", rt, h.lit)
		}
	}
	i64 := types.Typ[types.Int64]
	return st.Convert(ai.App("lit:int", i64, h.lit), i64, rt)
}

// literals checks the handlers of the literals of a language.
func (l *langT) literals(c *Ctx) {
	done := map[string]bool{}
	for _, r := range l.g.order {
		l.g.rules[r].marks(func(mark string, of *rnode) {
			if of.k != 't' || done[of.name+"/"+mark] {
				return
			}
			key := "$" + mark
			fn := l.fn(key)
			if fn == nil || fn.Fn == nil || l.recv(fn.Fn.Signature) != 's' || ai.NumIn(fn.Fn.Signature) < 2 {
				return
			}
			pt := ai.ParamType(fn.Fn.Signature, 1)
			switch of.name {
			case "INT", "FLOAT", "IMAG", "STRING", "CHAR":
			case "IDENT":
				if strings.HasPrefix(l.rel+"/", relQlang+"/") || !types.Identical(pt, ai.TString) {
					return
				}
			default:
				return
			}
			done[of.name+"/"+mark] = true
			l.literal(c, of.name, mark, fn, pt)
		})
	}
	if len(done) == 0 {
		c.Missing("the literals of " + l.rel)
	}
}

func (l *langT) literal(c *Ctx, tok, mark string, fn *T, pt types.Type) {
	what := l.rel + " " + tok + "/" + mark
	var cls []litClass
	switch tok {
	case "INT":
		cls = numberClasses()
	case "FLOAT":
		cls = append(numberClasses(), floatClasses()...)
	case "IMAG":
		cls = []litClass{{name: "imaginary number", char: 'i'}}
	case "STRING":
		cls = []litClass{{name: "string", char: 's'}}
	case "CHAR":
		cls = []litClass{{name: "character", char: 'c'}}
	case "IDENT":
		l.constants(c, what, fn)
		return
	}
	if b, ok := pt.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		l.literalCase(c, what, tok, litClass{name: "number", char: 'n'}, fn, pt) // parsed by the engine
		return
	}
	for _, cl := range cls {
		l.literalCase(c, what, tok, cl, fn, pt)
	}
}

// stackOf makes a stack of arbitrary contents for the language.
func (l *langT) stackOf(c *Ctx, what string) *stackH {
	p, ok := l.stk.(*types.Pointer)
	if !ok {
		c.Missing("the stack of " + l.rel)
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		c.Missing("the stack of " + l.rel)
		return nil
	}
	rel, _ := relOf(c, n.Obj().Pkg())
	if h := newStackH(c, rel); h != nil {
		h.st = l.base.Clone()
		h.m = c.Machine()
		h.m.RuntimePanics = true
		h.stk = ai.NewSym("stk", l.stk)
		h.st.Assume(ai.App("isnil", ai.TBool, h.stk), false)
		h.s0 = h.st.Load(h.stk, h.t)
		h.n0 = h.st.Len(h.s0)
		h.k = ai.NewSym("k", ai.TInt)
		h.st.Assume(ai.GE0(ai.LinOf(h.k)), true)
		h.grow()
		return h
	}
	return nil
}

func (l *langT) literalCase(c *Ctx, what, tok string, cl litClass, fn *T, pt types.Type) {
	sh := l.stackOf(c, what)
	if sh == nil {
		return
	}
	h := &litH{c: c, cl: cl, m: sh.m}
	h.m.Hook = h.hook
	var arg *T
	if cl.char == 'n' {
		arg = ai.FreshVal(sh.st, "number", pt)
		h.lit = arg
	} else {
		h.text(sh.st)
		arg = h.lit
	}
	what += " (" + cl.name + ")"
	pos := fnPos(fn)
	args := []*T{sh.stk, arg}
	ok := 0
	for _, o := range h.m.CallValue(fn, args, sh.st) {
		failed := o.Panic != nil
		if !failed && o.Ret != nil && o.Ret.Typ != nil && isError(o.Ret.Typ) {
			failed = o.St.Eval(o.St.IsNil(o.Ret)) <= 0
		}
		if failed {
			_, n1 := sh.final(o.St, fn.Fn, sh.n0, what)
			h.m.Check(o.St, o.St.EQ(n1, sh.n0), pos, "%s fails and leaves a value", what)
			may := o.St.Ghost["failed"] != nil && !isRatPtr(sh.elem)
			if cl.char == 'c' && o.St.Ghost["rune"] != nil {
				multi, _ := ai.BoolVal(o.St.Ghost["multi"])
				more, _ := ai.BoolVal(o.St.Ghost["tail"])
				may = may || multi || more
			}
			h.m.Check(o.St, may, pos, "%s fails though the text is a literal that can be represented", what)
			continue
		}
		ok++
		h.m.Check(o.St, o.St.Ghost["failed"] == nil || isRatPtr(sh.elem), pos, "%s succeeds though the text cannot be read", what)
		s1, n1 := sh.final(o.St, fn.Fn, sh.n0, what)
		if !h.m.Check(o.St, o.St.EQ(n1, ai.AddK(sh.n0, 1)), pos, "%s: the stack has %s values instead of one more", what, n1) {
			continue
		}
		top := sh.at(o.St, s1, sh.n0)
		h.m.Check(o.St, h.pushed(o.St, sh, tok, pt, top), pos, "%s puts %s on the stack", what, h.show(o.St, top))
	}
	h.m.Check(sh.st, ok > 0, pos, "%s never succeeds", what)
	c.Absorb(what, h.m)
	c.Case("%s", what)
}

func (h *litH) show(st *S, top *T) *T {
	if v := bigval(st, top); v != nil {
		return v
	}
	return top
}

// pushed reports whether top is the value of the literal.
func (h *litH) pushed(st *S, sh *stackH, tok string, pt types.Type, top *T) bool {
	f64 := types.Typ[types.Float64]
	zero := ai.ConstT(constant.MakeFloat64(0), f64)
	boxed := func(want types.Type) *T {
		if top.K == ai.KIface && types.Identical(top.Typ, want) {
			return top.Args[0]
		}
		return nil
	}
	same := func(v, want *T) bool {
		return v != nil && want != nil && (st.Same(v, want) || sameNumber(v, want))
	}
	if isRatPtr(sh.elem) {
		if top.K != ai.KObj {
			return false
		}
		v := bigval(st, top)
		if v == nil {
			return false
		}
		if h.cl.char == '0' {
			k, ok := ai.IntVal(v)
			return ok && k == 0
		}
		return v == ai.App("lit:big", ai.TInt, h.lit)
	}
	_, dyn := sh.elem.Underlying().(*types.Interface)
	num := func(rt types.Type) *T {
		if h.cl.char == 'n' {
			return st.Convert(h.lit, pt, rt)
		}
		return h.value(st, rt)
	}
	switch tok {
	case "INT":
		if dyn {
			return same(boxed(ai.TInt), num(ai.TInt))
		}
	case "FLOAT":
		if dyn {
			return same(boxed(f64), num(f64))
		}
	case "STRING":
		return same(boxed(ai.TString), ai.App("unquoted", ai.TString, h.lit))
	case "CHAR":
		v := st.Ghost["rune"]
		if v == nil {
			return false
		}
		// one character of one byte
		if more, _ := ai.BoolVal(st.Ghost["tail"]); more {
			return false
		}
		if multi, _ := ai.BoolVal(st.Ghost["multi"]); multi || st.Eval(ai.GE0(ai.LinOf(ai.Sub(ai.Int(255), v)))) <= 0 {
			return false
		}
		v = st.Convert(v, v.Typ, types.Typ[types.Uint8])
		return same(boxed(types.Typ[types.Uint8]), v)
	case "IMAG":
		if top.K == ai.KApp && top.Name == "complex" {
			return same(top.Args[0], zero) && same(top.Args[1], ai.App("lit:float", f64, h.lit))
		}
		return false
	}
	b, ok := sh.elem.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch {
	case b.Info()&types.IsComplex != 0:
		return top.K == ai.KApp && top.Name == "complex" && same(top.Args[0], num(f64)) && same(top.Args[1], zero)
	case b.Info()&types.IsFloat != 0:
		return same(top, num(f64))
	}
	return false
}

// constants checks the names that are numbers.
func (l *langT) constants(c *Ctx, what string, fn *T) {
	f64 := types.Typ[types.Float64]
	want := map[string]*T{
		"e": ai.ConstT(constant.MakeFloat64(math.E), f64), "pi": ai.ConstT(constant.MakeFloat64(math.Pi), f64), "phi": ai.ConstT(constant.MakeFloat64(math.Phi), f64),
		"Inf": ai.App("math.Inf", f64, ai.Int(1)), "NaN": ai.App("math.NaN", f64),
	}
	pos := fnPos(fn)
	for _, name := range []string{"e", "pi", "phi", "Inf", "NaN", ""} {
		sh := l.stackOf(c, what)
		if sh == nil {
			return
		}
		h := &litH{c: c, m: sh.m}
		h.m.Hook = h.hook
		arg := ai.Str(name)
		label := what + " " + name
		if name == "" {
			label = what + " any other name"
			arg = ai.NewSym("name", ai.TString)
			for k := range want {
				sh.st.Assume(sh.st.Eq(arg, ai.Str(k)), false)
			}
		}
		for _, o := range h.m.CallValue(fn, []*T{sh.stk, arg}, sh.st) {
			if name == "" {
				_, n1 := sh.final(o.St, fn.Fn, sh.n0, label)
				h.m.Check(o.St, o.Panic != nil && o.St.EQ(n1, sh.n0), pos, "%s is accepted or leaves a value", label)
				continue
			}
			if !h.m.Check(o.St, o.Panic == nil, pos, "%s fails", label) {
				continue
			}
			s1, n1 := sh.final(o.St, fn.Fn, sh.n0, label)
			if !h.m.Check(o.St, o.St.EQ(n1, ai.AddK(sh.n0, 1)), pos, "%s: the stack has %s values instead of one more", label, n1) {
				continue
			}
			v := sh.at(o.St, s1, sh.n0)
			ok := o.St.Same(v, want[name])
			if v.K == ai.KConst && want[name].K == ai.KConst {
				x, _ := constant.Float64Val(constant.ToFloat(v.Val))
				y, _ := constant.Float64Val(want[name].Val)
				ok = x == y
			}
			if v.K == ai.KApp && v.Name == "math.Inf" && name == "Inf" {
				k, isK := ai.IntVal(v.Args[0])
				ok = isK && k >= 0
			}
			h.m.Check(o.St, ok, pos, "%s is %s", label, v)
		}
		c.Absorb(label, h.m)
		c.Case("%s", label)
	}
}
