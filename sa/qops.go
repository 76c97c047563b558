package main

import (
	"go/token"
	"go/types"

	"verif/sa/ai"
)

func init() {
	register("Q01", "each operator of qlang, as bound in the function table and the operator variables, is interpreted for every pair of dynamic operand types and its result compared with the Go operation", checkOperators)
}

const (
	relSpec    = "tpl/qlang/spec"
	relQcl     = "tpl/qlang/cl"
	relBuiltin = "tpl/qlang/lib/builtin"
)

// qBase is the state after all packages of qlang were initialised.
func qBase(c *Ctx) *S {
	return c.P.Base("tpl", relSpec, relQcl, relBuiltin, relBuiltin+"/types", "tpl/interpreter", "tpl/interpreter.util")
}

// tableFn finds a function in a function table.
func tableFn(st *S, table *T, mt types.Type, key string) *T {
	has, v := st.MapHas(table, ai.Str(key), mt)
	if has <= 0 || v == nil {
		return nil
	}
	if v.K == ai.KIface {
		v = v.Args[0]
	}
	if v.K != ai.KFunc && v.K != ai.KClosure {
		return nil
	}
	return v
}

// specTable is the function table of qlang.
func specTable(c *Ctx, st *S) (*T, types.Type) {
	t := globalVal(c, st, relSpec, "Fntable")
	return t, c.P.Pkg(relSpec).Pkg.Scope().Lookup("Fntable").Type()
}

type operand struct {
	name string
	typ  types.Type // nil: the nil interface
}

func sampleOperands() []operand {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	return []operand{
		{"int", b(types.Int)}, {"float64", b(types.Float64)}, {"string", b(types.String)}, {"byte", b(types.Uint8)}, {"bool", b(types.Bool)}, {"nil", nil},
		{"int64", b(types.Int64)}, {"uint", b(types.Uint)}, {"int32", b(types.Int32)}, {"float32", b(types.Float32)}, {"complex128", b(types.Complex128)},
		{"[]int", types.NewSlice(b(types.Int))}, {"map", types.NewMap(b(types.String), ai.TAny)}, {"*int", types.NewPointer(b(types.Int))},
		{"interface{} of a private type", types.NewNamed(types.NewTypeName(0, types.NewPackage("elsewhere", "elsewhere"), "Kind", nil), b(types.Int), nil)},
	}
}

// opRule says what an operator computes for operands of two types.
type opRule struct {
	key, name string // table entry, operator variable
	op        token.Token
	unary     bool
	kinds     string // supported operands: i int, f float64, s string, c byte as int, b bool, k byte kept
	compare   bool
}

func opRules() []opRule {
	return []opRule{
		{key: "$add", name: "Add", op: token.ADD, kinds: "ifs"},
		{key: "$sub", name: "Sub", op: token.SUB, kinds: "if"},
		{key: "$mul", name: "Mul", op: token.MUL, kinds: "if"},
		{key: "$quo", name: "Quo", op: token.QUO, kinds: "if"},
		{key: "$mod", name: "Mod", op: token.REM, kinds: "i"},
		{key: "$lt", op: token.LSS, kinds: "ifsc", compare: true},
		{key: "$gt", op: token.GTR, kinds: "ifsc", compare: true},
		{key: "$le", op: token.LEQ, kinds: "ifsc", compare: true},
		{key: "$ge", op: token.GEQ, kinds: "ifsc", compare: true},
		{key: "$eq", name: "EQ", op: token.EQL},
		{key: "$ne", op: token.NEQ},
		{key: "$neg", op: token.SUB, unary: true, kinds: "if"},
		{key: "$not", op: token.NOT, unary: true, kinds: "b"},
		{name: "Inc", op: token.INC, unary: true, kinds: "ik"},
		{name: "Dec", op: token.DEC, unary: true, kinds: "ik"},
	}
}

// classOf is the operand class of a type under a rule (0: unsupported).
func (r opRule) classOf(o operand) byte {
	b, ok := o.typ.(*types.Basic)
	if !ok {
		return 0
	}
	var k byte
	switch b.Kind() {
	case types.Int:
		k = 'i'
	case types.Float64:
		k = 'f'
	case types.String:
		k = 's'
	case types.Bool:
		k = 'b'
	case types.Uint8:
		k = 'c'
	}
	for i := 0; i < len(r.kinds); i++ {
		if r.kinds[i] == k || k == 'c' && r.kinds[i] == 'k' {
			return r.kinds[i]
		}
	}
	return 0
}

// want is the specified result for two operands; nil: an error.
func (r opRule) want(st *S, a, b operand, av, bv *T) *T {
	tInt, tFloat := types.Typ[types.Int], types.Typ[types.Float64]
	any := ai.TAny
	ka := r.classOf(a)
	if r.unary {
		switch {
		case ka == 0:
			return nil
		case r.op == token.NOT:
			return ai.Iface(a.typ, ai.Not(av), any)
		case r.op == token.SUB && ka == 'i':
			return ai.Iface(a.typ, st.BinOp(token.SUB, ai.Int(0), av, tInt, tInt), any)
		case r.op == token.SUB:
			return ai.Iface(a.typ, ai.App("neg", tFloat, av), any)
		case r.op == token.INC:
			return ai.Iface(a.typ, ai.AddK(av, 1), any)
		default:
			return ai.Iface(a.typ, ai.AddK(av, -1), any)
		}
	}
	kb := r.classOf(b)
	if ka == 0 || kb == 0 {
		return nil
	}
	ta, tb := a.typ, b.typ
	if ka == 'c' {
		av, ta, ka = st.Convert(av, ta, tInt), tInt, 'i'
	}
	if kb == 'c' {
		bv, tb, kb = st.Convert(bv, tb, tInt), tInt, 'i'
	}
	if ka == 'i' && kb == 'f' {
		av, ta, ka = st.Convert(av, ta, tFloat), tFloat, 'f'
	}
	if ka == 'f' && kb == 'i' {
		bv, tb, kb = st.Convert(bv, tb, tFloat), tFloat, 'f'
	}
	if ka != kb {
		return nil
	}
	res := ta
	if r.compare {
		res = types.Typ[types.Bool]
	}
	return ai.Iface(res, st.BinOp(r.op, av, bv, ta, res), any)
}

func checkOperators(c *Ctx) {
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	base := qBase(c)
	table, mt := specTable(c, base)
	ops := sampleOperands()
	c.Rule("for operands of each pair of dynamic types, every way an operator function can return yields the Go operation on the operands in order, an int widened to float64 when the other is a float64 and a byte to int in an order comparison; other pairs panic")
	for _, r := range opRules() {
		for k, what := range []string{"the entry " + r.key, "the variable spec." + r.name} {
			var fn *T
			if k == 0 {
				if r.key == "" {
					continue
				}
				fn = tableFn(base, table, mt, r.key)
			} else {
				if r.name == "" {
					continue
				}
				if v := globalVal(c, base, relSpec, r.name); v.K == ai.KFunc || v.K == ai.KClosure {
					fn = v
				}
			}
			if fn == nil {
				c.Missing(what)
				continue
			}
			n := 0
			for _, a := range ops {
				for _, b := range ops {
					if r.unary && b.typ != nil {
						continue
					}
					n += r.run(c, what, fn, base.Clone(), a, b)
				}
			}
			c.Case("%s (%s): %d operand combinations", what, fn.Fn.Name(), n)
		}
	}
}

func boxed(o operand, name string) (*T, *T) {
	if o.typ == nil {
		return ai.Nil(ai.TAny), nil
	}
	v := ai.NewSym(name, o.typ)
	return ai.Iface(o.typ, v, ai.TAny), v
}

func (r opRule) run(c *Ctx, what string, fn *T, st *S, a, b operand) int {
	m := c.Machine()
	m.RuntimePanics = true
	xa, av := boxed(a, "a")
	xb, bv := boxed(b, "b")
	args := []*T{xa, xb}
	if r.unary {
		args = args[:1]
	}
	var want *T
	if r.op == token.EQL || r.op == token.NEQ {
		eq := st.Eq(xa, xb)
		if r.op == token.NEQ {
			eq = ai.Not(eq)
		}
		want = ai.Iface(types.Typ[types.Bool], eq, ai.TAny)
	} else {
		want = r.want(st, a, b, av, bv)
	}
	pos := token.NoPos
	if fn.Fn != nil {
		pos = fn.Fn.Pos()
	}
	desc := a.name + " " + r.op.String() + " " + b.name
	if r.unary {
		desc = r.op.String() + " " + a.name
	}
	rets := 0
	for _, o := range m.CallValue(fn, args, st) {
		if o.Panic != nil {
			if want != nil {
				// only the run-time error of the operation itself
				zero := (r.op == token.QUO || r.op == token.REM) && bv != nil && o.St.Eval(ai.EQ0(ai.LinOf(bv))) > 0
				uncomparable := r.op == token.EQL || r.op == token.NEQ
				m.Check(o.St, zero || uncomparable, pos, "%s: %s panics instead of giving %s", what, desc, want)
			} else {
				m.Check(o.St, true, pos, "")
			}
			continue
		}
		rets++
		if want == nil {
			m.Check(o.St, false, pos, "%s: the unsupported %s is not an error", what, desc)
			continue
		}
		m.Check(o.St, o.Ret != nil && sameResult(o.St, o.Ret, want), pos, "%s: %s gives %s instead of %s", what, desc, o.Ret, want)
	}
	if want != nil {
		m.Check(st, rets > 0, pos, "%s: %s never gives a result", what, desc)
	}
	c.Absorb(what, m)
	return 1
}

// sameResult compares two boxed values.
func sameResult(st *S, x, y *T) bool {
	if st.Same(x, y) {
		return true
	}
	if x.K != ai.KIface || y.K != ai.KIface || !types.Identical(x.Typ, y.Typ) {
		return false
	}
	a, b := x.Args[0], y.Args[0]
	if st.Same(a, b) {
		return true
	}
	if a.K == ai.KApp && b.K == ai.KApp && a.Name == b.Name && len(a.Args) == 2 && (a.Name == "*" || a.Name == "+" || a.Name == "mul") {
		if st.Same(a.Args[0], b.Args[1]) && st.Same(a.Args[1], b.Args[0]) {
			return true // commutative
		}
	}
	if bt, ok := x.Typ.(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		ea, eb := st.Eval(a), st.Eval(b)
		return ea != 0 && ea == eb
	}
	if bt, ok := x.Typ.(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return st.EQ(a, b)
	}
	return false
}
