package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("I04", "the functions that call a bound or script function are interpreted with stacks of every arrangement of argument types against every kind of parameter; the call, its arguments and its results are events", checkUtilCalls)
}

// argKind is the type of an argument (nil: the nil value).
type argKind struct {
	name string
	t    types.Type
}

// callH interprets the calls of package interpreter (util).
type callH struct {
	c       *Ctx
	m       *ai.Machine
	st      *S
	stk, fn *T
	stkT    types.Type
	vals    []*T // reflect.Values on the stack, the last one on top
	fail    bool // PopArgs reports that there are too few
	sig     *types.Signature
	named   *types.Named // receiver of a Call method
}

func paramKinds(c *Ctx) []argKind {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	pt := types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("elsewhere", "elsewhere"), "Obj", nil), types.NewStruct(nil, nil), nil))
	return []argKind{
		{"int", b(types.Int)}, {"float64", b(types.Float64)}, {"string", b(types.String)}, {"byte", b(types.Uint8)}, {"bool", b(types.Bool)}, {"[]int", types.NewSlice(b(types.Int))},
		{"map", types.NewMap(b(types.String), ai.TAny)}, {"*Obj", pt}, {"interface{}", ai.TAny}, {"error", errType()}, {"func()", types.NewSignatureType(nil, nil, nil, nil, nil, false)},
	}
}

func argKinds(c *Ctx, ps []argKind) []argKind {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	out := []argKind{{"nil", nil}, {"int64", b(types.Int64)}, {"int8", b(types.Int8)}, {"uint", b(types.Uint)}, {"uint64", b(types.Uint64)}, {"float32", b(types.Float32)}, {"complex128", b(types.Complex128)}, {"an error", types.NewPointer(c.Type("tpl", "MatchError"))}}
	for _, p := range ps {
		if !types.IsInterface(p.t) {
			out = append(out, p)
		}
	}
	return out
}

// want is the value a parameter gets from an argument; nil: it is rejected.
func (h *callH) want(st *S, p, a argKind, v *T) *T {
	if a.t == nil {
		switch p.t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			return ai.Zero(p.t)
		}
		return nil
	}
	if types.AssignableTo(a.t, p.t) {
		if types.IsInterface(p.t) {
			return ai.Iface(a.t, v, p.t)
		}
		return v
	}
	if p.name == "float64" {
		if ab, ok := a.t.(*types.Basic); ok && ab.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return st.Convert(v, a.t, p.t)
		}
	}
	return nil
}

func newCallH(c *Ctx) *callH {
	h := &callH{c: c, stkT: c.Type(relUtil, "Stack")}
	if h.stkT == nil {
		return nil
	}
	return h
}

func (h *callH) reset() {
	h.st = h.c.P.Base("tpl", relUtil, "tpl/interpreter")
	h.m = h.c.Machine()
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	h.stk = ai.NewSym("stk", h.stkT)
	h.st.Assume(ai.App("isnil", ai.TBool, h.stk), false)
	h.fn = ai.NewSym("fn", nil)
	h.fail = false
	h.vals = nil
	h.st.Ghost["popped"] = ai.Int(0)
}

func (h *callH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Method != nil && ci.Recv == h.stk {
		switch ci.Method.Name() {
		case "PopArgs":
			rt := ci.Sig.Results().At(0).Type()
			if h.fail {
				logged(st, "nopop")
				return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.Nil(rt), ai.Bool(false))}}, true
			}
			k, ok := ai.IntVal(ci.Args[0])
			if !ok {
				m.Check(st, false, ci.Pos(), "the number of arguments popped is not known: %s", ci.Args[0])
				return nil, true
			}
			p, _ := ai.IntVal(st.Ghost["popped"])
			logged(st, fmt.Sprintf("pop%d", k))
			st.Ghost["popped"] = ai.Int(p + k)
			o := ai.NewObj("args", types.NewArray(ai.RVType, k))
			for i := int64(0); i < k; i++ {
				j := int64(len(h.vals)) - p - k + i
				v := ai.RV(ai.NewSym("below", ai.TAny))
				if j >= 0 {
					v = h.vals[j]
				}
				st.Store(ai.IndexAddr(o, ai.Int(i), types.NewPointer(ai.RVType)), v, ai.RVType)
			}
			return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.SliceT(rt, o, ai.Int(0), ai.Int(k), ai.Int(k)), ai.Bool(true))}}, true
		case "PushRet":
			logged(st, "push")
			st.Ghost["pushed"] = ci.Args[0]
			e := st.Clone()
			err := e.NewError(ai.Str("push"))
			e.Ghost["pusherr"] = err
			return []ai.Outcome{{St: st, Ret: ai.Nil(ci.Sig.Results().At(0).Type())}, {St: e, Ret: err}}, true
		}
		m.Check(st, false, ci.Pos(), "the call uses the method %s of the stack", ci.Method.Name())
		return nil, false
	}
	isFn := ci.FnTerm == h.fn && h.fn != nil
	if ci.Fn != nil && h.named != nil && ci.Fn.Name() == "Call" && ci.Fn.Signature.Recv() != nil && types.Identical(ci.Fn.Signature.Recv().Type(), types.NewPointer(h.named)) {
		isFn = true
		m.Check(st, len(ci.Args) > 0 && ci.Args[0] == h.fn, ci.Pos(), "the method Call of another value is called")
	}
	if isFn {
		logged(st, "call")
		args := ci.Args
		if ci.Fn != nil {
			args = args[1:]
		}
		for i, a := range args {
			st.Ghost[fmt.Sprintf("arg%d", i)] = a
		}
		st.Ghost["nargs"] = ai.Int(int64(len(args)))
		p := st.Clone()
		pan := ai.Iface(ai.TString, ai.Str("panic of the function"), ai.TAny)
		p.Ghost["panicked"] = pan
		ret := ai.FreshTuple(st, h.sig.Results(), "result")
		if ret != nil {
			st.Ghost["result"] = ret
		}
		return []ai.Outcome{{St: st, Ret: ret}, {St: p, Panic: pan}}, true
	}
	return nil, false
}

// value makes an argument.
func (h *callH) value(a argKind) (*T, *T) {
	if a.t == nil {
		return nil, ai.RV(ai.Nil(ai.TAny))
	}
	v := ai.FreshVal(h.st, "arg", a.t)
	return v, ai.RV(ai.Iface(a.t, v, ai.TAny))
}

type callForm struct {
	ps       []argKind
	variadic bool
	as       []argKind
	results  int
	vcall    int // 0: the function is given, 1: it is on the stack, 2: an object with a method Call is
}

func (f callForm) String() string {
	var ps, as []string
	for i, p := range f.ps {
		s := p.name
		if f.variadic && i == len(f.ps)-1 {
			s = "..." + s
		}
		ps = append(ps, s)
	}
	for _, a := range f.as {
		as = append(as, a.name)
	}
	return "func(" + strings.Join(ps, ", ") + ") called with (" + strings.Join(as, ", ") + ")"
}

func (h *callH) signature(f callForm) *types.Signature {
	var ps, rs []*types.Var
	for i, p := range f.ps {
		t := p.t
		if f.variadic && i == len(f.ps)-1 {
			t = types.NewSlice(t)
		}
		ps = append(ps, types.NewParam(token.NoPos, nil, fmt.Sprintf("p%d", i), t))
	}
	for i := 0; i < f.results; i++ {
		t := []types.Type{types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Float64]}[i]
		rs = append(rs, types.NewParam(token.NoPos, nil, "", t))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), f.variadic)
}

// run interprets one call.
func (h *callH) run(target *ssa.Function, f callForm, fail bool) {
	h.reset()
	h.fail = fail
	h.sig = h.signature(f)
	h.named = nil
	pos := target.Pos()
	what := target.Name() + " of a " + f.String()
	args := []*T{h.stk}
	fnT := types.Type(h.sig)
	switch f.vcall {
	case 0:
		h.fn = ai.NewSym("fn", fnT)
	case 1:
		h.fn = ai.NewSym("fn", fnT)
		h.vals = append(h.vals, ai.RV(ai.Iface(fnT, h.fn, ai.TAny)))
	case 2:
		ft, _ := h.c.Type(relQcl, "Function").(*types.Named)
		if ft == nil {
			return
		}
		h.named = ft
		fnT = types.NewPointer(ft)
		h.fn = ai.NewSym("function", fnT)
		h.vals = append(h.vals, ai.RV(ai.Iface(fnT, h.fn, ai.TAny)))
		cm := ai.MethodOf(h.c.P.Prog, fnT, ft.Obj().Pkg(), "Call")
		if cm == nil {
			h.c.Missing("method Call of Function")
			return
		}
		h.sig = cm.Signature
	}
	h.st.Assume(ai.App("isnil", ai.TBool, h.fn), false)
	var vs []*T
	for _, a := range f.as {
		v, rv := h.value(a)
		vs = append(vs, v)
		h.vals = append(h.vals, rv)
	}
	if f.vcall == 0 {
		args = append(args, ai.Iface(fnT, h.fn, ai.TAny))
	}
	args = append(args, ai.Int(int64(len(f.as))))
	if n := target.Signature.Params().Len(); n == 5 {
		args = append(args, ai.Int(int64(len(f.ps))), ai.Bool(f.variadic))
	}
	// what must happen
	np := len(f.ps)
	ok := len(f.as) == np || f.variadic && len(f.as) >= np-1
	var wants []*T
	rejected := ""
	for i, a := range f.as {
		if !ok {
			break
		}
		j := i
		if f.variadic && j > np-1 {
			j = np - 1
		}
		w := h.want(h.st, f.ps[j], a, vs[i])
		if w == nil {
			rejected = fmt.Sprintf("argument %d (%s) for %s", i, a.name, f.ps[j].name)
			break
		}
		wants = append(wants, w)
	}
	base := h.st.Clone()
	n, done := 0, 0
	for _, o := range h.m.Run(target, args, nil, h.st) {
		n++
		st := o.St
		log := theLog(st)
		failed := o.Panic != nil || st.Eval(st.IsNil(o.Ret)) < 0
		calls := strings.Count(log, "call;")
		if !ok || rejected != "" || fail && len(f.as)+f.vcall > 0 {
			why := "a wrong number of arguments"
			if ok {
				why = rejected
			}
			if fail && (!ok || rejected == "") {
				why = "a stack with too few values"
			}
			h.m.Check(st, calls == 0, pos, "%s: the function runs in spite of %s", what, why)
			h.m.Check(st, failed, pos, "%s: %s is not reported", what, why)
			continue
		}
		if st.Ghost["panicked"] != nil {
			h.m.Check(st, o.Panic != nil && st.Same(o.Panic, st.Ghost["panicked"]), pos, "%s: a panic of the function is lost", what)
			h.m.Check(st, strings.HasSuffix(log, "call;"), pos, "%s: %s", what, log)
			continue
		}
		if !h.m.Check(st, o.Panic == nil, pos, "%s panics (%s) %s", what, o.Panic, log) {
			continue
		}
		if !h.m.Check(st, calls == 1, pos, "%s: the function runs %d times (%s)", what, calls, st.ErrorDesc(o.Ret)) {
			continue
		}
		done++
		// all values are taken from the stack once
		p, _ := ai.IntVal(st.Ghost["popped"])
		h.m.Check(st, p == int64(len(h.vals)), pos, "%s: %d values are taken from the stack instead of %d", what, p, len(h.vals))
		na, _ := ai.IntVal(st.Ghost["nargs"])
		if !h.m.Check(st, int(na) == np, pos, "%s: it gets %d arguments", what, na) {
			continue
		}
		same := func(got, w *T, i int) {
			h.m.Check(st, got != nil && (st.Same(got, w) || sameResult(st, got, w)), pos, "%s: argument %d is %s instead of %s", what, i, got, w)
		}
		fixed := np
		if f.variadic {
			fixed--
			rest := st.Ghost[fmt.Sprintf("arg%d", fixed)]
			cnt := len(wants) - fixed
			if h.m.Check(st, st.EQ(st.Len(rest), ai.Int(int64(cnt))), pos, "%s: the last parameter gets %s values instead of %d", what, st.Len(rest), cnt) && cnt > 0 {
				arr, lo, _, _ := st.SliceParts(rest)
				et := f.ps[fixed].t
				for i := 0; i < cnt; i++ {
					same(st.Load(ai.IndexAddr(arr, ai.AddK(lo, int64(i)), types.NewPointer(et)), et), wants[fixed+i], fixed+i)
				}
			}
		}
		for i := 0; i < fixed; i++ {
			same(st.Ghost[fmt.Sprintf("arg%d", i)], wants[i], i)
		}
		// the results are pushed once
		h.m.Check(st, strings.Count(log, "push;") == 1, pos, "%s: its results are pushed %d times", what, strings.Count(log, "push;"))
		if e := st.Ghost["pusherr"]; e != nil {
			h.m.Check(st, st.Same(e, o.Ret), pos, "%s: the error of pushing the results is lost", what)
		} else {
			h.m.Check(st, !failed, pos, "%s: it is an error", what)
		}
		if rs := st.Ghost["pushed"]; rs != nil {
			k := h.sig.Results().Len()
			if h.m.Check(st, st.EQ(st.Len(rs), ai.Int(int64(k))), pos, "%s: %s results are pushed instead of %d", what, st.Len(rs), k) && k > 0 {
				arr, lo, _, _ := st.SliceParts(rs)
				for i := 0; i < k; i++ {
					w := st.Ghost["result"]
					if k > 1 {
						w = w.Args[i]
					}
					got := st.Load(ai.IndexAddr(arr, ai.AddK(lo, int64(i)), types.NewPointer(ai.RVType)), ai.RVType)
					rt := h.sig.Results().At(i).Type()
					wv := ai.RVIface(w)
					if !types.IsInterface(rt) {
						wv = ai.RV(ai.Iface(rt, w, ai.TAny))
					}
					h.m.Check(st, st.Same(got, wv), pos, "%s: result %d is pushed as %s", what, i, got)
				}
			}
		}
	}
	h.m.Check(base, n > 0, pos, "%s never ends", what)
	if ok && rejected == "" && !(fail && len(f.as)+f.vcall > 0) {
		h.m.Check(base, done > 0, pos, "%s never succeeds", what)
	}
	h.c.Absorb(what, h.m)
}

func checkUtilCalls(c *Ctx) {
	thorough := c.Tier == "thorough"
	c.Rule("a function runs once, after its arguments were taken from the stack, only if their number is that of its parameters (at least the fixed ones of a variadic function) and each is assignable to its parameter - a number for a float64 parameter is converted, nil for a pointer or interface is its zero value -, it gets them in order, its results are pushed once in order; everything else is an error or a panic and the function does not run")
	h := newCallH(c)
	if h == nil {
		return
	}
	call, vcall := c.Func(relUtil, "Call"), c.Func(relUtil, "VCall")
	if call == nil || vcall == nil {
		return
	}
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	ps := paramKinds(c)
	as := argKinds(c, ps)
	intK := ps[0]
	var forms []callForm
	// every argument type for every parameter type, in every role
	for _, p := range ps {
		for _, a := range as {
			for vc := 0; vc < 2; vc++ {
				forms = append(forms,
					callForm{ps: []argKind{p}, as: []argKind{a}, results: 1, vcall: vc},
					callForm{ps: []argKind{p}, variadic: true, as: []argKind{a}, vcall: vc},
					callForm{ps: []argKind{intK, p}, variadic: true, as: []argKind{intK, a, a}, results: 1, vcall: vc},
					callForm{ps: []argKind{p, intK}, variadic: true, as: []argKind{a, intK}, results: 1, vcall: vc},
				)
				if thorough || a.t == nil || !types.Identical(a.t, p.t) {
					forms = append(forms, callForm{ps: []argKind{intK, p, intK}, as: []argKind{intK, a, intK}, results: 1, vcall: vc})
				}
			}
		}
	}
	// every number of parameters and arguments
	max := 4
	if thorough {
		max = 6
	}
	pick := func(n int) []argKind {
		var out []argKind
		for i := 0; i < n; i++ {
			out = append(out, ps[(i+1)%4])
		}
		return out
	}
	for np := 0; np <= max; np++ {
		for na := 0; na <= max+1; na++ {
			for res := 0; res <= 3; res += 1 {
				for vc := 0; vc < 2; vc++ {
					if res != 1 && na != np {
						continue
					}
					f := callForm{ps: pick(np), as: pick(na), results: res, vcall: vc}
					forms = append(forms, f)
					if np > 0 {
						f.variadic = true
						f.as = append([]argKind{}, f.as...)
						for i := np; i < na; i++ {
							f.as[i] = f.ps[np-1]
						}
						forms = append(forms, f)
					}
				}
			}
		}
	}
	for na := 0; na <= 3; na++ {
		f := callForm{ps: []argKind{ps[8]}, variadic: true, as: append([]argKind{as[0]}, pick(na)...)[:na], results: 1, vcall: 2}
		forms = append(forms, f)
	}
	n := 0
	for _, f := range forms {
		t := call
		if f.vcall > 0 {
			t = vcall
		}
		h.run(t, f, false)
		n++
		if len(f.ps) == len(f.as) && f.results == 1 && len(f.ps) < 3 {
			h.run(t, f, true)
			n++
		}
	}
	spread(c)
	c.Case("%d calls: %d kinds of parameters, %d of arguments, up to %d parameters and %d arguments", n, len(ps), len(as), max, max+1)
}

// spread checks the calls of scripts: which values the call gets.
func spread(c *Ctx) {
	h := newQclH(c)
	vcall := c.Func(relUtil, "VCall")
	if h == nil || vcall == nil {
		return
	}
	fn := h.handler("call")
	if fn == nil {
		return
	}
	pos := fnPos(fn)
	n := 0
	run := func(what string, ell int64, vals []*T, want []*T, count int64, mk func() *T) {
		n++
		h.reset()
		ops := []*T{ai.FreshVal(h.st, "f", ai.TAny)}
		ops = append(ops, vals...)
		if mk != nil {
			ops = append(ops, mk())
		}
		f := ops[0]
		box := func(k int64) *T { return ai.Iface(ai.TInt, ai.Int(k), ai.TAny) }
		h.operands(append(ops, box(count), box(ell))...)
		ip := h.scope("ip", nil)
		hook := h.m.Hook
		h.m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn != vcall {
				return hook(m, st, ci)
			}
			logged(st, "call")
			m.Check(st, ci.Args[0].K == ai.KIface && ci.Args[0].Args[0] == h.stk, pos, "%s: the values are not taken from the stack of the script", what)
			m.Check(st, want != nil, pos, "%s: the function is called", what)
			m.Check(st, st.EQ(ci.Args[1], ai.Int(int64(len(want)))), pos, "%s: the function is called with %s values instead of %d", what, ci.Args[1], len(want))
			if h.kept(st, pos, what, int64(len(want))+1) {
				for i := range want {
					v := h.top(st, int64(len(want)-1-i))
					m.Check(st, st.Same(v, want[i]) || sameResult(st, v, want[i]), pos, "%s: argument %d is %s instead of %s", what, i, v, want[i])
				}
				m.Check(st, st.Same(h.top(st, int64(len(want))), f), pos, "%s: the value that is called is %s", what, h.top(st, int64(len(want))))
			}
			e := st.Clone()
			err := e.NewError(ai.Str("call"))
			e.Ghost["err"] = err
			p := st.Clone()
			pan := ai.Iface(ai.TString, ai.Str("panic"), ai.TAny)
			p.Ghost["pan"] = pan
			return []ai.Outcome{{St: st, Ret: ai.Nil(errType())}, {St: e, Ret: err}, {St: p, Panic: pan}}, true
		}
		outs, calls := 0, 0
		for _, o := range h.call(fn, ip, nil) {
			outs++
			log := theLog(o.St)
			failed := o.Panic != nil || o.Ret != nil && o.St.Eval(o.St.IsNil(o.Ret)) < 0
			if want == nil {
				h.m.Check(o.St, failed && log == "", pos, "%s: it is not an error", what)
				continue
			}
			switch {
			case o.St.Ghost["pan"] != nil:
				h.m.Check(o.St, o.Panic != nil && o.St.Same(o.Panic, o.St.Ghost["pan"]), pos, "%s: a panic of the call is lost", what)
			case o.St.Ghost["err"] != nil:
				h.m.Check(o.St, o.Panic != nil || o.Ret != nil && o.St.Same(o.Ret, o.St.Ghost["err"]), pos, "%s: an error of the call is lost", what)
			default:
				h.m.Check(o.St, !failed, pos, "%s: it fails (%s)", what, o.Panic)
				calls++
			}
			h.m.Check(o.St, log == "call;", pos, "%s: the function is called %d times", what, strings.Count(log, "call;"))
		}
		h.m.Check(h.st, outs > 0 && (want == nil || calls > 0), pos, "%s never ends", what)
	}
	sym := func(k int) []*T {
		var out []*T
		for i := 0; i < k; i++ {
			out = append(out, ai.NewSym(fmt.Sprintf("a%d", i), ai.TAny))
		}
		return out
	}
	slice := func(elem types.Type, k int) (func() *T, []*T) {
		vs := sym(k)
		t := types.NewSlice(elem)
		boxes := append([]*T{}, vs...)
		for i := range vs {
			if !types.IsInterface(elem) {
				vs[i] = ai.NewSym(fmt.Sprintf("e%d", i), elem)
				boxes[i] = ai.Iface(elem, vs[i], ai.TAny)
			}
		}
		return func() *T {
			o := ai.NewObj("list", types.NewArray(elem, int64(k)))
			for i, v := range vs {
				h.st.Store(ai.IndexAddr(o, ai.Int(int64(i)), types.NewPointer(elem)), v, elem)
			}
			return ai.Iface(t, ai.SliceT(t, o, ai.Int(0), ai.Int(int64(k)), ai.Int(int64(k))), ai.TAny)
		}, boxes
	}
	for k := 0; k <= 3; k++ {
		vs := sym(k)
		run(fmt.Sprintf("a call with %d arguments", k), 0, vs, append([]*T{}, vs...), int64(k), nil)
		for j := 0; j <= 3; j++ {
			for _, elem := range []types.Type{ai.TAny, types.Typ[types.Int], types.Typ[types.String]} {
				mk, boxes := slice(elem, j)
				want := append(append([]*T{}, vs...), boxes...)
				run(fmt.Sprintf("a call with %d arguments and a list of %d", k, j), 1, vs, want, int64(k)+1, mk)
			}
		}
	}
	run("a call with ... but no argument", 1, nil, nil, 0, nil)
	for _, t := range []types.Type{types.Typ[types.Int], types.NewMap(ai.TString, ai.TAny), types.Typ[types.String]} {
		v := ai.Iface(t, ai.NewSym("x", t), ai.TAny)
		run("a call with ... behind a value of type "+t.String(), 1, []*T{v}, nil, 1, nil)
	}
	run("a call with ... behind nil", 1, []*T{ai.Nil(ai.TAny)}, nil, 1, nil)
	h.absorb("call")
	c.Case("%d calls of scripts, with and without a list", n)
}
