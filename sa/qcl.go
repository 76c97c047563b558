package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// qclH interprets the handlers of qlang: scopes and the value stack are
// symbolic, the evaluation of nested code is an event.
type qclH struct {
	c      *Ctx
	m      *ai.Machine
	last   *ai.Machine // its findings are taken over
	base   *S
	st     *S
	ipT    types.Type // Interpreter
	stkT   types.Type // Stack
	f      map[string]int
	ft     map[string]types.Type
	engT   types.Type // interpreter.Engine
	ctxT   types.Type // interpreter.Context
	eng    *T
	stk    *T
	n0, s0 *T // contents of the stack below the operands
	k, vk  *T // an arbitrary value below the operands
	nops   int64
	table  *T
	mt     types.Type
	mapT   types.Type
	opFn   map[*ssa.Function]string                  // operators of compound assignment and switch
	names  []string                                  // texts of the next names
	onExec func(st *S, ci *ai.CallInfo) []ai.Outcome // executing source text
	execIn map[string]bool                           // the types that do it
	onEval func(st *S, ip, rule, code *T, pos token.Pos) []ai.Outcome
	gram   *gspec
}

func newQclH(c *Ctx) *qclH {
	h := &qclH{c: c}
	h.ipT, h.stkT = c.Type(relQcl, "Interpreter"), c.Type(relQcl, "Stack")
	h.engT, h.ctxT = c.Type("tpl/interpreter.util", "Engine"), c.Type("tpl/interpreter.util", "Context")
	if h.ipT == nil || h.stkT == nil || h.engT == nil || h.ctxT == nil {
		return nil
	}
	h.fields()
	h.base = qBase(c)
	h.table, h.mt = specTable(c, h.base)
	h.opFn = map[*ssa.Function]string{}
	for _, n := range []string{"Add", "Sub", "Mul", "Quo", "Mod", "Inc", "Dec", "EQ"} {
		if v := globalVal(c, h.base, relSpec, n); v.Fn != nil {
			h.opFn[v.Fn] = n
		}
	}
	h.reset()
	return h
}

// fields finds the fields of a scope by their types.
func (h *qclH) fields() {
	h.f, h.ft = map[string]int{}, map[string]types.Type{}
	s := h.ipT.Underlying().(*types.Struct)
	set := func(role string, i int) {
		if _, dup := h.f[role]; dup {
			panic("two fields of Interpreter may be its " + role)
		}
		h.f[role], h.ft[role] = i, s.Field(i).Type()
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Map:
			h.mapT = t
			set("vars", i)
		case *types.Interface:
			if s.Field(i).Exported() {
				set("recov", i)
			} else {
				set("ret", i)
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				set("base", i)
			}
		case *types.Pointer:
			switch {
			case types.Identical(u.Elem(), h.ipT):
				set("parent", i)
			case types.Identical(u.Elem(), h.stkT):
				set("stk", i)
			default:
				set("defers", i)
			}
		}
	}
	for _, r := range []string{"vars", "recov", "ret", "base", "parent", "stk", "defers"} {
		if _, ok := h.f[r]; !ok {
			panic("the field for " + r + " of Interpreter is missing")
		}
	}
}

func (h *qclH) get(st *S, ip *T, role string) *T {
	return st.Load(ai.FieldAddr(ip, h.f[role], types.NewPointer(h.ft[role])), h.ft[role])
}

func (h *qclH) set(st *S, ip *T, role string, v *T) {
	st.Store(ai.FieldAddr(ip, h.f[role], types.NewPointer(h.ft[role])), v, h.ft[role])
}

// absorb takes over the findings of the current run.
func (h *qclH) absorb(label string) {
	if h.m != nil && h.m != h.last {
		h.c.Absorb(label, h.m)
		h.last = h.m
	}
}

func (h *qclH) reset() {
	h.absorb("handlers")
	h.st = h.base.Clone()
	h.m = h.c.Machine()
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	h.onEval, h.onExec = nil, nil
	h.stk = ai.NewSym("stk", types.NewPointer(h.stkT))
	h.st.Assume(ai.App("isnil", ai.TBool, h.stk), false)
	h.eng = ai.NewSym("engine", h.engT)
	h.st.Assume(ai.App("isnil", ai.TBool, h.eng), false)
	h.s0 = h.st.Load(h.stk, h.stkT)
	h.n0 = nil
	h.nops = 0
	h.operands()
}

func (h *qclH) elem(st *S, s, i *T) *T {
	arr, lo, _, _ := st.SliceParts(s)
	return st.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(ai.TAny)), ai.TAny)
}

// operands puts values on top of an arbitrary stack.
func (h *qclH) operands(vs ...*T) {
	n := h.st.Len(h.s0)
	h.nops = int64(len(vs))
	h.n0 = ai.AddK(n, -h.nops)
	h.st.Assume(ai.GE0(ai.LinOf(h.n0)), true)
	arr, lo, _, _ := h.st.SliceParts(h.s0)
	for i, v := range vs {
		h.st.Store(ai.IndexAddr(arr, ai.Add(lo, ai.AddK(h.n0, int64(i))), types.NewPointer(ai.TAny)), v, ai.TAny)
	}
	j := ai.NewSym("j", ai.TInt)
	h.st.Assume(ai.GE0(ai.LinOf(j)), true)
	h.k = ai.Sub(ai.AddK(h.n0, -1), j)
	h.vk = h.elem(h.st, h.s0, h.k)
}

// depth is the number of values above the arbitrary part.
func (h *qclH) depth(st *S) *T { return ai.Sub(st.Len(st.Load(h.stk, h.stkT)), h.n0) }

// top yields the value i places below the top.
func (h *qclH) top(st *S, i int64) *T {
	s := st.Load(h.stk, h.stkT)
	return h.elem(st, s, ai.AddK(st.Len(s), -1-i))
}

// pushV pushes a value (an effect of evaluated code).
func (h *qclH) pushV(st *S, v *T) {
	s := st.Load(h.stk, h.stkT)
	arr := ai.NewObj("arg", types.NewArray(ai.TAny, 1))
	st.Store(ai.IndexAddr(arr, ai.Int(0), types.NewPointer(ai.TAny)), v, ai.TAny)
	r := st.AppendModel(h.stkT, s, ai.SliceT(types.NewSlice(ai.TAny), arr, ai.Int(0), ai.Int(1), ai.Int(1)))
	st.Store(h.stk, r, h.stkT)
}

// kept checks that the stack below the operands is unchanged and that it has
// d values above.
func (h *qclH) kept(st *S, pos token.Pos, what string, d int64) bool {
	s1 := st.Load(h.stk, h.stkT)
	if !h.m.Check(st, st.EQ(h.depth(st), ai.Int(d)), pos, "%s: %s values are on the stack above the ones below its operands, instead of %d", what, h.depth(st), d) {
		return false
	}
	s := st.Clone()
	if s.Assume(ai.GE0(ai.LinOf(h.k)), true) {
		v := h.elem(s, s1, h.k)
		return h.m.Check(st, s.Same(v, h.vk), pos, "%s: a value below its operands changes from %s to %s", what, h.vk, v)
	}
	return true
}

// scope makes a scope; its variables are arbitrary unless set.
func (h *qclH) scope(name string, parent *T) *T {
	ip := ai.NewObj(name, h.ipT)
	h.st.Store(ip, ai.Zero(h.ipT), h.ipT)
	vars := ai.NewObj(name+".vars", h.mapT)
	h.st.Dirty[vars] = 1
	h.set(h.st, ip, "vars", vars)
	h.set(h.st, ip, "ret", ai.FreshVal(h.st, name+".ret", ai.TAny))
	h.set(h.st, ip, "recov", ai.FreshVal(h.st, name+".recov", ai.TAny))
	if parent == nil {
		parent = ai.Nil(h.ft["parent"])
	}
	h.set(h.st, ip, "parent", parent)
	h.set(h.st, ip, "stk", h.stk)
	b := ai.NewSym(name+".base", ai.TInt)
	h.st.Assume(ai.GE0(ai.LinOf(b)), true)
	h.st.Assume(ai.GE0(ai.LinOf(ai.Sub(h.n0, b))), true)
	h.set(h.st, ip, "base", b)
	return ip
}

func (h *qclH) vars(st *S, ip *T) *T { return h.get(st, ip, "vars") }

func (h *qclH) setVar(ip *T, name string, v *T) {
	h.st.MapStore(h.vars(h.st, ip), ai.Str(name), v, h.mapT)
}

func (h *qclH) noVar(ip *T, name string) {
	h.st.SetAbsent(h.vars(h.st, ip), ai.Str(name), h.mapT)
}

// varOf reads an entry of a scope: 1 present, -1 absent, 0 unknown.
func (h *qclH) varOf(st *S, ip *T, name string) (int, *T) {
	return st.MapHas(h.vars(st, ip), ai.Str(name), h.mapT)
}

// handler finds the function bound to a mark.
func (h *qclH) handler(mark string) *T {
	fn := tableFn(h.base, h.table, h.mt, "$"+mark)
	if fn == nil {
		h.c.Missing("the handler of the mark " + mark)
	}
	return fn
}

// call runs a handler on a scope; arg supplies the string, int or code.
func (h *qclH) call(fn, ip, arg *T) []ai.Outcome {
	args, ok := h.argsFor(fn, ip, arg)
	if !ok {
		h.m.Check(h.st, false, fn.Fn.Pos(), "the arguments of %s are not known", fn.Fn.Name())
		return nil
	}
	return h.m.CallValue(fn, args, h.st)
}

func (h *qclH) argsFor(fn, ip, arg *T) ([]*T, bool) {
	sig := fn.Fn.Signature
	var args []*T
	for i := 0; i < ai.NumIn(sig); i++ {
		t := ai.ParamType(sig, i)
		switch {
		case types.Identical(t, types.NewPointer(h.ipT)):
			args = append(args, ip)
		case types.Identical(t, types.NewPointer(h.stkT)):
			args = append(args, h.stk)
		case types.Identical(t, h.engT):
			args = append(args, h.eng)
		case types.Identical(t, types.NewPointer(h.ctxT)):
			o := ai.NewObj("ctx", h.ctxT)
			h.st.Store(o, ai.FreshVal(h.st, "ctx", h.ctxT), h.ctxT)
			if i, ft := fieldIdx(h.ctxT, "Engine"); i >= 0 {
				h.st.Store(ai.FieldAddr(o, i, types.NewPointer(ft)), h.eng, ft)
			}
			args = append(args, o)
		case arg != nil && (types.Identical(arg.Typ, t) || types.IsInterface(t)):
			args = append(args, arg)
		case types.Identical(t, ai.TString):
			if len(h.names) > 0 {
				args = append(args, ai.Str(h.names[0]))
				h.names = h.names[1:]
				continue
			}
			s := ai.FreshVal(h.st, "text", t)
			h.st.Assume(ai.GE0(ai.LinOf(ai.AddK(h.st.Len(s), -1))), true)
			args = append(args, s)
		default:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				args = append(args, ai.FreshVal(h.st, "num", t))
				continue
			}
			return nil, false
		}
	}
	return args, true
}

// logged appends to the event log of a path.
func logged(st *S, e string) {
	s := ""
	if l := st.Ghost["log"]; l != nil {
		s, _ = ai.StrVal(l)
	}
	st.Ghost["log"] = ai.Str(s + e + ";")
}

func theLog(st *S) string {
	if l := st.Ghost["log"]; l != nil {
		s, _ := ai.StrVal(l)
		return s
	}
	return ""
}

func (h *qclH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Fn != nil {
		if h.onEval != nil && ci.Fn.Name() == "EvalCode" && len(ci.Args) == 4 {
			return h.onEval(st, h.ipOf(ci.Args[1]), ci.Args[2], ci.Args[3], ci.Pos()), true
		}
		if h.onExec != nil && ci.Fn.Signature.Recv() != nil {
			t := ci.Fn.Signature.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == h.c.P.Pkg("tpl").Pkg && h.execIn[n.Obj().Name()] {
				return h.onExec(st, ci), true
			}
		}
		if op := h.opFn[ci.Fn]; op != "" {
			// the operators of Q01: a result or a panic
			p := st.Clone()
			return []ai.Outcome{
				{St: st, Ret: ai.App("op:"+op, ai.TAny, ci.Args...)},
				{St: p, Panic: ai.App("op-error", ai.TAny, ci.Args...)},
			}, true
		}
		return nil, false
	}
	if ci.Method != nil && ci.Recv == h.eng {
		switch ci.Method.Name() {
		case "EvalCode":
			if h.onEval != nil && len(ci.Args) == 3 {
				return h.onEval(st, h.ipOf(ci.Args[0]), ci.Args[1], ci.Args[2], ci.Pos()), true
			}
		}
	}
	return nil, false
}

// ipOf unwraps the scope passed as interface.
func (h *qclH) ipOf(x *T) *T {
	if x.K == ai.KIface {
		return x.Args[0]
	}
	return x
}

// grammar is the rule text of qlang.
func (h *qclH) grammar() *gspec {
	if h.gram == nil {
		h.gram = grammarOf(h.c, h.base, relQcl, "Interpreter")
	}
	return h.gram
}

// grammarOf evaluates the Grammar method of a calculator or language.
func grammarOf(c *Ctx, base *S, rel, typ string) *gspec {
	t := c.Type(rel, typ)
	if t == nil {
		return nil
	}
	fn := ai.MethodOf(c.P.Prog, types.NewPointer(t), c.P.Pkg(rel).Pkg, "Grammar")
	if fn == nil {
		c.Missing("method Grammar of " + rel + "." + typ)
		return nil
	}
	m := c.Machine()
	src := ""
	n := 0
	for _, o := range m.Run(fn, []*T{ai.NewSym("ip", types.NewPointer(t))}, nil, base.Clone()) {
		n++
		if o.Ret != nil {
			src, _ = ai.StrVal(o.Ret)
		}
	}
	c.Absorb("Grammar", m)
	if n != 1 || src == "" {
		c.Missing("a constant grammar of " + rel)
		return nil
	}
	g, err := parseGrammar(src)
	if err != nil {
		c.Violate(fn.Pos(), rel, "the grammar cannot be read: "+err.Error(), nil)
		return nil
	}
	return g
}

// fnPos is the position of a handler.
func fnPos(fn *T) token.Pos {
	if fn != nil && fn.Fn != nil {
		if fn.Fn.Synthetic != "" && fn.Fn.Pos() == token.NoPos {
			return token.NoPos
		}
		return fn.Fn.Pos()
	}
	return token.NoPos
}

func desc(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
