package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("I05", "every operation of the four value stacks is interpreted on a stack of arbitrary contents and compared with the last-in first-out specification", checkStacks)
}

// stackH interprets the methods of one stack type.
type stackH struct {
	c       *Ctx
	rel     string
	t       *types.Named // Stack
	slice   types.Type
	elem    types.Type
	st      *S
	m       *ai.Machine
	stk     *T // *Stack
	s0, n0  *T
	k, vk   *T // an arbitrary old element
	modelOK bool
}

func newStackH(c *Ctx, rel string) *stackH {
	h := &stackH{c: c, rel: rel}
	t, _ := c.Type(rel, "Stack").(*types.Named)
	if t == nil {
		return nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		c.Missing("the slice type " + rel + ".Stack")
		return nil
	}
	h.t, h.slice, h.elem = t, t, sl.Elem()
	h.reset()
	return h
}

func (h *stackH) reset() {
	h.st = h.c.P.Base("tpl", h.rel, relSpec, "tpl/interpreter.util", "tpl/interpreter")
	h.m = h.c.Machine()
	h.m.RuntimePanics = true
	h.stk = ai.NewSym("stk", types.NewPointer(h.t))
	h.st.Assume(ai.App("isnil", ai.TBool, h.stk), false)
	h.s0 = h.st.Load(h.stk, h.t)
	h.n0 = h.st.Len(h.s0)
	h.k = ai.NewSym("k", ai.TInt)
	h.st.Assume(ai.GE0(ai.LinOf(h.k)), true)
	h.vk = nil
}

// old makes k an arbitrary index of the old stack.
func (h *stackH) old(st *S) *S {
	s := st.Clone()
	if !s.Assume(ai.GE0(ai.LinOf(ai.Sub(h.n0, ai.AddK(h.k, 1)))), true) {
		return nil
	}
	return s
}

func (h *stackH) at(st *S, s, i *T) *T {
	arr, lo, _, _ := st.SliceParts(s)
	return st.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(h.elem)), h.elem)
}

// method returns a method of *Stack.
func (h *stackH) method(name string) *ssa.Function {
	return ai.MethodOf(h.c.P.Prog, types.NewPointer(h.t), h.c.P.Pkg(h.rel).Pkg, name)
}

// final checks the old elements that are still on the stack and yields its length.
func (h *stackH) final(st *S, fn *ssa.Function, keep *T, what string) (*T, *T) {
	s1 := st.Load(h.stk, h.t)
	n1 := st.Len(s1)
	s := st.Clone()
	if s.Assume(ai.GE0(ai.LinOf(ai.Sub(keep, ai.AddK(h.k, 1)))), true) {
		s.Assume(ai.GE0(ai.LinOf(ai.Sub(h.n0, ai.AddK(h.k, 1)))), true)
		if h.vk != nil {
			v := h.at(s, s1, h.k)
			h.m.Check(st, s.Same(v, h.vk), fn.Pos(), "%s: a value below the ones involved changes from %s to %s", what, h.vk, v)
		}
	}
	return s1, n1
}

func (h *stackH) grow() { h.vk = h.at(h.st, h.s0, h.k) }

func (h *stackH) run(fn *ssa.Function, args ...*T) []ai.Outcome {
	return h.m.Run(fn, append([]*T{h.stk}, args...), nil, h.st)
}

var stackPkgs = []string{"tpl/number", "tpl/cmplx", "tpl/rat", relQcl}

func checkStacks(c *Ctx) {
	c.Rule("a push leaves all values and adds the given one on top; Pop of a non-empty stack yields the top value and leaves the ones below, of an empty one it reports false and changes nothing; PopArgs(n) yields the n topmost values in push order in memory of its own and leaves the ones below, or reports false and changes nothing when there are fewer")
	for _, rel := range stackPkgs {
		h := newStackH(c, rel)
		if h == nil {
			continue
		}
		h.newStack()
		for _, name := range []string{"Push", "PushReal", "PushInt", "PushFloat"} {
			if fn := h.method(name); fn != nil {
				h.push(fn)
			} else if name == "Push" {
				c.Missing("method Push of " + rel + ".Stack")
			}
		}
		if fn := h.method("Pop"); fn != nil {
			h.pop(fn)
		} else {
			c.Missing("method Pop of " + rel + ".Stack")
		}
		if fn := h.method("PopArgs"); fn != nil {
			h.popArgs(fn, true)
		} else {
			c.Missing("method PopArgs of " + rel + ".Stack")
		}
		for _, name := range []string{"popNArgs", "popFnArgs"} {
			if fn := h.method(name); fn != nil {
				h.popArgs(fn, false)
			}
		}
		if fn := h.method("popArity"); fn != nil {
			h.popArity(fn)
		}
		if fn := h.method("PushRet"); fn != nil {
			h.pushRet(fn)
		} else {
			c.Missing("method PushRet of " + rel + ".Stack")
		}
		if fn := h.method("BaseFrame"); fn != nil {
			h.frames(fn, h.method("SetFrame"))
		}
		if fn := h.method("Clear"); fn != nil {
			h.reset()
			for _, o := range h.run(fn) {
				h.m.Check(o.St, o.Panic == nil && o.St.EQ(o.St.Len(o.St.Load(h.stk, h.t)), ai.Int(0)), fn.Pos(), "Clear does not empty the stack")
			}
			h.c.Absorb(rel+" Clear", h.m)
		}
		if fn := c.P.Func(rel, "Arity"); fn != nil {
			h.arity(fn)
		}
	}
}

func (h *stackH) newStack() {
	fn := h.c.Func(h.rel, "NewStack")
	if fn == nil {
		return
	}
	h.reset()
	n := 0
	for _, o := range h.m.Run(fn, nil, nil, h.st) {
		n++
		if h.m.Check(o.St, o.Panic == nil && o.Ret != nil && o.St.Eval(o.St.IsNil(o.Ret)) < 0, fn.Pos(), "NewStack gives no stack") {
			h.m.Check(o.St, o.Ret.K == ai.KObj, fn.Pos(), "NewStack does not make a new stack: %s", o.Ret)
			s := o.St.Load(o.Ret, h.t)
			h.m.Check(o.St, o.St.EQ(o.St.Len(s), ai.Int(0)), fn.Pos(), "a new stack is not empty")
			arr, _, _, _ := o.St.SliceParts(s)
			h.m.Check(o.St, s.K == ai.KNil || arr.K == ai.KNil || ai.Root(arr).K == ai.KObj, fn.Pos(), "a new stack shares the memory of another one")
		}
	}
	h.m.Check(h.st, n > 0, fn.Pos(), "NewStack never returns")
	h.c.Absorb(h.rel+" NewStack", h.m)
	h.c.Case("%s: NewStack", h.rel)
}

// pushed yields the value that must be on the stack for a pushed argument.
func (h *stackH) pushed(st *S, v *T, vt types.Type) *T {
	if types.Identical(vt, h.elem) {
		return v
	}
	if _, ok := h.elem.Underlying().(*types.Interface); ok {
		return ai.Iface(vt, v, h.elem)
	}
	if b, ok := h.elem.Underlying().(*types.Basic); ok {
		vb, _ := vt.Underlying().(*types.Basic)
		if vb == nil {
			return nil
		}
		switch {
		case b.Info()&types.IsComplex != 0 && vb.Info()&types.IsFloat != 0:
			return ai.App("complex", h.elem, v, ai.ConstT(constant.MakeFloat64(0), types.Typ[types.Float64]))
		case b.Info()&types.IsComplex != 0 && vb.Info()&types.IsInteger != 0:
			return ai.App("complex", h.elem, st.Convert(v, vt, types.Typ[types.Float64]), ai.ConstT(constant.MakeFloat64(0), types.Typ[types.Float64]))
		case b.Info()&types.IsFloat != 0:
			return st.Convert(v, vt, h.elem)
		}
	}
	if isRatPtr(h.elem) {
		if vb, ok := vt.Underlying().(*types.Basic); ok && vb.Info()&types.IsInteger != 0 {
			return ai.App("math/big.NewRat", h.elem, v, ai.Int(1))
		}
	}
	return nil
}

func isRatPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Rat"
}

func (h *stackH) push(fn *ssa.Function) {
	if fn.Signature.Params().Len() != 1 {
		return
	}
	vt := fn.Signature.Params().At(0).Type()
	if b, ok := vt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return
	}
	h.reset()
	h.grow()
	v := ai.FreshVal(h.st, "v", vt)
	want := h.pushed(h.st, v, vt)
	what := h.rel + " " + fn.Name()
	n := 0
	for _, o := range h.run(fn, v) {
		n++
		if !h.m.Check(o.St, o.Panic == nil, fn.Pos(), "%s panics", what) {
			continue
		}
		h.onTop(o.St, fn, what, want)
	}
	h.m.Check(h.st, n > 0, fn.Pos(), "%s never returns", what)
	h.c.Absorb(what, h.m)
	h.c.Case("%s", what)
}

// onTop checks that want was pushed on the old stack.
func (h *stackH) onTop(st *S, fn *ssa.Function, what string, want *T) bool {
	s1, n1 := h.final(st, fn, h.n0, what)
	if !h.m.Check(st, st.EQ(n1, ai.AddK(h.n0, 1)), fn.Pos(), "%s: the stack has %s values instead of one more", what, n1) {
		return false
	}
	top := h.at(st, s1, h.n0)
	return h.m.Check(st, want != nil && (st.Same(top, want) || sameResult(st, top, want)), fn.Pos(), "%s: the value on top is %s instead of %s", what, top, want)
}

func (h *stackH) pop(fn *ssa.Function) {
	h.reset()
	h.grow()
	what := h.rel + " Pop"
	top := h.at(h.st, h.s0, ai.AddK(h.n0, -1))
	rets := [2]int{}
	for _, o := range h.run(fn) {
		st := o.St
		if !h.m.Check(st, o.Panic == nil && o.Ret != nil && o.Ret.K == ai.KTuple, fn.Pos(), "%s panics", what) {
			continue
		}
		v, ok := o.Ret.Args[0], o.Ret.Args[1]
		for _, empty := range []bool{true, false} {
			s := st.Clone()
			c := ai.GE0(ai.LinOf(ai.AddK(h.n0, -1)))
			if !s.Assume(c, !empty) {
				continue
			}
			if empty {
				s.Assume(ai.EQ0(ai.LinOf(h.n0)), true)
				rets[0]++
				h.m.Check(s, s.Eval(ok) < 0, fn.Pos(), "%s: popping an empty stack does not report failure", what)
				h.m.Check(s, s.EQ(s.Len(s.Load(h.stk, h.t)), ai.Int(0)), fn.Pos(), "%s: an empty stack is changed", what)
				continue
			}
			rets[1]++
			h.m.Check(s, s.Eval(ok) > 0, fn.Pos(), "%s: popping a non-empty stack reports failure", what)
			h.m.Check(s, s.Same(v, top), fn.Pos(), "%s: the popped value is %s instead of the top one", what, v)
			_, n1 := h.final(s, fn, ai.AddK(h.n0, -1), what)
			h.m.Check(s, s.EQ(n1, ai.AddK(h.n0, -1)), fn.Pos(), "%s: the stack has %s values instead of one less", what, n1)
		}
	}
	h.m.Check(h.st, rets[0] > 0 && rets[1] > 0, fn.Pos(), "%s never returns", what)
	h.c.Absorb(what, h.m)
	h.c.Case("%s: empty and not empty", what)
}

func (h *stackH) popArgs(fn *ssa.Function, public bool) {
	h.reset()
	h.grow()
	what := h.rel + " " + fn.Name()
	ar := ai.NewSym("arity", ai.TInt)
	h.st.Assume(ai.GE0(ai.LinOf(ar)), true)
	j := ai.NewSym("j", ai.TInt) // an arbitrary argument
	h.st.Assume(ai.GE0(ai.LinOf(j)), true)
	src := h.at(h.st, h.s0, ai.Add(ai.Sub(h.n0, ar), j))
	if !public {
		h.m.RuntimePanics = false
	}
	rets := [2]int{}
	names := fn.Name() == "popFnArgs"
	for _, o := range h.run(fn, ar) {
		st := o.St
		enough := ai.GE0(ai.LinOf(ai.Sub(h.n0, ar)))
		for _, few := range []bool{true, false} {
			s := st.Clone()
			if !s.Assume(enough, !few) {
				continue
			}
			if few {
				rets[0]++
				if public {
					if !h.m.Check(s, o.Panic == nil, fn.Pos(), "%s panics when there are too few values", what) {
						continue
					}
					h.m.Check(s, s.Eval(o.Ret.Args[1]) < 0, fn.Pos(), "%s: too few values are not reported", what)
				} else {
					h.m.Check(s, o.Panic != nil, fn.Pos(), "%s: too few values are not an error", what)
				}
				_, n1 := h.final(s, fn, h.n0, what)
				h.m.Check(s, s.EQ(n1, h.n0), fn.Pos(), "%s: values are removed though there are too few", what)
				continue
			}
			if o.Panic != nil {
				h.m.Check(s, names, fn.Pos(), "%s panics though there are enough values", what)
				continue
			}
			rets[1]++
			args := o.Ret
			if public {
				args = o.Ret.Args[0]
				h.m.Check(s, s.Eval(o.Ret.Args[1]) > 0, fn.Pos(), "%s: failure is reported though there are enough values", what)
			}
			h.m.Check(s, s.EQ(s.Len(args), ar), fn.Pos(), "%s: %s arguments are returned instead of %s", what, s.Len(args), ar)
			_, n1 := h.final(s, fn, ai.Sub(h.n0, ar), what)
			h.m.Check(s, s.EQ(n1, ai.Sub(h.n0, ar)), fn.Pos(), "%s: the stack has %s values instead of %s", what, n1, ai.Sub(h.n0, ar))
			if !s.Assume(ai.GE0(ai.LinOf(ai.Sub(ar, ai.AddK(j, 1)))), true) {
				continue
			}
			arr, lo, _, _ := s.SliceParts(args)
			h.m.Check(s, arr.K == ai.KNil || ai.Root(arr).K == ai.KObj, fn.Pos(), "%s: the arguments share the memory of the stack, the next push overwrites them", what)
			at := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			v := s.Load(ai.IndexAddr(arr, ai.Add(lo, j), types.NewPointer(at)), at)
			var want *T
			switch {
			case names:
				want = ai.App("unbox", ai.TString, src)
			case public:
				want = reflectOf(src, h.elem)
			default:
				want = src
			}
			h.m.Check(s, s.Same(v, want) || sameRV(s, v, want), fn.Pos(), "%s: an argument is %s instead of %s", what, v, want)
		}
	}
	h.m.Check(h.st, rets[0] > 0 && rets[1] > 0, fn.Pos(), "%s never returns", what)
	h.c.Absorb(what, h.m)
	h.c.Case("%s: enough and too few values, any count", what)
}

func (h *stackH) popArity(fn *ssa.Function) {
	h.reset()
	h.grow()
	what := h.rel + " popArity"
	top := h.at(h.st, h.s0, ai.AddK(h.n0, -1))
	rets := 0
	for _, o := range h.run(fn) {
		if o.Panic != nil {
			ok := o.St.Eval(ai.EQ0(ai.LinOf(h.n0))) > 0 || o.St.Eval(ai.TypeIs(top, ai.TInt)) < 0
			h.m.Check(o.St, ok, fn.Pos(), "%s panics though an arity is on top", what)
			continue
		}
		rets++
		h.m.Check(o.St, o.St.EQ(o.Ret, ai.Unbox(top, ai.TInt)), fn.Pos(), "%s gives %s instead of the top value", what, o.Ret)
		_, n1 := h.final(o.St, fn, ai.AddK(h.n0, -1), what)
		h.m.Check(o.St, o.St.EQ(n1, ai.AddK(h.n0, -1)), fn.Pos(), "%s leaves %s values instead of one less", what, n1)
	}
	h.m.Check(h.st, rets > 0, fn.Pos(), "%s never returns", what)
	h.c.Absorb(what, h.m)
	h.c.Case("%s", what)
}

func (h *stackH) arity(fn *ssa.Function) {
	if fn.Signature.Params().Len() != 2 {
		return
	}
	h.reset()
	h.grow()
	v := ai.NewSym("arity", ai.TInt)
	what := h.rel + " Arity"
	for _, o := range h.m.Run(fn, []*T{h.stk, v}, nil, h.st) {
		if h.m.Check(o.St, o.Panic == nil, fn.Pos(), "%s panics", what) {
			h.onTop(o.St, fn, what, h.pushed(o.St, v, ai.TInt))
		}
	}
	h.c.Absorb(what, h.m)
	h.c.Case("%s", what)
}

func (h *stackH) frames(base, set *ssa.Function) {
	h.reset()
	h.grow()
	for _, o := range h.run(base) {
		h.m.Check(o.St, o.Panic == nil && o.St.EQ(o.Ret, h.n0), base.Pos(), "BaseFrame is not the number of values")
	}
	h.c.Absorb("BaseFrame", h.m)
	if set == nil {
		return
	}
	h.reset()
	h.grow()
	n := ai.NewSym("n", ai.TInt)
	h.st.Assume(ai.GE0(ai.LinOf(n)), true)
	h.st.Assume(ai.GE0(ai.LinOf(ai.Sub(h.n0, n))), true)
	for _, o := range h.run(set, n) {
		if h.m.Check(o.St, o.Panic == nil, set.Pos(), "SetFrame panics") {
			_, n1 := h.final(o.St, set, n, "SetFrame")
			h.m.Check(o.St, o.St.EQ(n1, n), set.Pos(), "SetFrame leaves %s values instead of the given number", n1)
		}
	}
	h.c.Absorb("SetFrame", h.m)
	h.c.Case("%s: frames", h.rel)
}

// retKinds are the dynamic types a called function may return.
func (h *stackH) retKinds() []types.Type {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	out := []types.Type{b(types.Int), b(types.Int64), b(types.Uint), b(types.Float64), b(types.String), h.elem}
	switch {
	case strings.HasSuffix(h.rel, "cmplx"):
		out = append(out, b(types.Complex128))
	}
	return out
}

func (h *stackH) pushRet(fn *ssa.Function) {
	what := h.rel + " PushRet"
	vt := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	iface := types.IsInterface(h.elem)
	for _, rt := range h.retKinds() {
		if iface && types.Identical(rt, h.elem) {
			continue
		}
		h.reset()
		h.grow()
		v := ai.FreshVal(h.st, "ret", rt)
		rv := reflectOf(v, rt)
		o0 := ai.NewObj("rets", types.NewArray(vt.Elem(), 1))
		h.st.Store(ai.IndexAddr(o0, ai.Int(0), types.NewPointer(vt.Elem())), rv, vt.Elem())
		arg := ai.SliceT(fn.Signature.Params().At(0).Type(), o0, ai.Int(0), ai.Int(1), ai.Int(1))
		var want *T
		if iface {
			want = castWant(h.st, v, rt)
		} else {
			want = h.pushedRet(v, rt)
		}
		n := 0
		for _, o := range h.run(fn, arg) {
			n++
			if !h.m.Check(o.St, o.Panic == nil, fn.Pos(), "%s panics for a result of type %s", what, rt) {
				continue
			}
			if want == nil {
				h.m.Check(o.St, o.St.Eval(o.St.IsNil(o.Ret)) < 0, fn.Pos(), "%s: a result of the unsupported type %s is not an error", what, rt)
				continue
			}
			h.m.Check(o.St, o.St.Eval(o.St.IsNil(o.Ret)) > 0, fn.Pos(), "%s: a result of type %s is an error", what, rt)
			h.onTop(o.St, fn, what+" of "+rt.String(), want)
		}
		h.m.Check(h.st, n > 0, fn.Pos(), "%s never returns", what)
		h.c.Absorb(what, h.m)
	}
	h.c.Case("%s: %d result types", what, len(h.retKinds()))
	// several results, and none
	rt := h.retKinds()[0]
	if isRatPtr(h.elem) {
		rt = h.elem
	}
	for _, cnt := range []int64{0, 2, 3} {
		h.reset()
		h.grow()
		o0 := ai.NewObj("rets", types.NewArray(vt.Elem(), cnt))
		var want []*T
		for i := int64(0); i < cnt; i++ {
			v := ai.FreshVal(h.st, "ret", rt)
			h.st.Store(ai.IndexAddr(o0, ai.Int(i), types.NewPointer(vt.Elem())), reflectOf(v, rt), vt.Elem())
			if iface {
				want = append(want, castWant(h.st, v, rt))
			} else {
				want = append(want, h.pushedRet(v, rt))
			}
		}
		arg := ai.SliceT(fn.Signature.Params().At(0).Type(), o0, ai.Int(0), ai.Int(cnt), ai.Int(cnt))
		n := 0
		for _, o := range h.run(fn, arg) {
			n++
			st := o.St
			if !h.m.Check(st, o.Panic == nil && st.Eval(st.IsNil(o.Ret)) > 0, fn.Pos(), "%s fails for %d results", what, cnt) {
				continue
			}
			if !iface {
				s1, n1 := h.final(st, fn, h.n0, what)
				if !h.m.Check(st, st.EQ(n1, ai.AddK(h.n0, cnt)), fn.Pos(), "%s of %d results: the stack has %s values", what, cnt, n1) {
					continue
				}
				for i, w := range want {
					v := h.at(st, s1, ai.AddK(h.n0, int64(i)))
					h.m.Check(st, w != nil && (st.Same(v, w) || sameResult(st, v, w)), fn.Pos(), "%s of %d results: result %d is pushed as %s instead of %s", what, cnt, i, v, w)
				}
				continue
			}
			if cnt == 0 {
				s1, n1 := h.final(st, fn, h.n0, what)
				if h.m.Check(st, st.EQ(n1, ai.AddK(h.n0, 1)), fn.Pos(), "%s of no result: the stack has %s values instead of one more", what, n1) {
					v := h.at(st, s1, h.n0)
					h.m.Check(st, st.Eval(st.IsNil(v)) > 0, fn.Pos(), "%s of no result pushes %s instead of nil", what, v)
				}
				continue
			}
			s1, n1 := h.final(st, fn, h.n0, what)
			if !h.m.Check(st, st.EQ(n1, ai.AddK(h.n0, 1)), fn.Pos(), "%s of %d results: the stack has %s values instead of one more", what, cnt, n1) {
				continue
			}
			top := h.at(st, s1, h.n0)
			any := types.NewSlice(h.elem)
			if !h.m.Check(st, top.K == ai.KIface && types.Identical(top.Typ, any), fn.Pos(), "%s of %d results pushes %s instead of a slice", what, cnt, top) {
				continue
			}
			sl := top.Args[0]
			h.m.Check(st, st.EQ(st.Len(sl), ai.Int(cnt)), fn.Pos(), "%s of %d results pushes a slice of %s", what, cnt, st.Len(sl))
			for i, w := range want {
				v := h.at(st, sl, ai.Int(int64(i)))
				h.m.Check(st, st.Same(v, w) || sameResult(st, v, w), fn.Pos(), "%s of %d results: result %d is %s instead of %s", what, cnt, i, v, w)
			}
		}
		h.m.Check(h.st, n > 0, fn.Pos(), "%s never returns", what)
		h.c.Absorb(what, h.m)
	}
}

// pushedRet is the stack value of a result of a typed stack.
func (h *stackH) pushedRet(v *T, rt types.Type) *T {
	if types.Identical(rt, h.elem) {
		return v
	}
	b, ok := rt.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString != 0 || isRatPtr(h.elem) {
		return nil
	}
	return h.pushed(h.st, v, rt)
}

// castWant is the boxed qlang value of a function result.
func castWant(st *S, v *T, rt types.Type) *T {
	b, ok := rt.Underlying().(*types.Basic)
	if !ok {
		return ai.Iface(rt, v, ai.TAny)
	}
	if b.Info()&types.IsInteger != 0 {
		return ai.Iface(ai.TInt, v, ai.TAny)
	}
	return ai.Iface(rt, v, ai.TAny)
}

// reflectOf is the reflect.Value of a value of a static type.
func reflectOf(v *T, t types.Type) *T {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return ai.RV(v)
	}
	return ai.RV(ai.Iface(t, v, ai.TAny))
}

// sameRV compares two reflect.Values.
func sameRV(st *S, a, b *T) bool {
	return a.K == ai.KApp && b.K == ai.KApp && a.Name == "reflect.ValueOf" && b.Name == a.Name && (st.Same(a.Args[0], b.Args[0]) || sameResult(st, a.Args[0], b.Args[0]))
}
