package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reflectPanic is the panic of package reflect for a wrong use.
func reflectPanic(st *State, text string) Outcome {
	return Outcome{St: st, Panic: Iface(TString, Str("reflect: "+text), TAny)}
}

// zeroValuePanic is the panic of a method of the zero reflect.Value.
func zeroValuePanic(st *State, name string) Outcome {
	return Outcome{St: st, Panic: st.NewError(Str("reflect: call of " + name + " on zero Value"))}
}

// methodRV is the method value of x by its name.
func methodRV(x *Term, name string) *Term { return App("reflect.method", RVType, x, Str(name)) }

// methodOfRV yields receiver, method and signature of a method value.
func (m *Machine) methodOfRV(v *Term) (*Term, *types.Func, types.Type) {
	if v.K != KApp || v.Name != "reflect.method" || v.Args[0].K != KIface {
		return nil, nil, nil
	}
	name, _ := StrVal(v.Args[1])
	dt := v.Args[0].Typ
	o, _, _ := types.LookupFieldOrMethod(dt, true, nil, name)
	f, _ := o.(*types.Func)
	if f == nil || !f.Exported() {
		return nil, nil, nil
	}
	return v.Args[0].Args[0], f, dt
}

// reflectCalls models Call, MethodByName and the panics of the zero Value.
func (m *Machine) reflectCalls(ci *CallInfo, name string, st *State) ([]Outcome, bool) {
	if len(ci.Args) == 0 {
		return nil, false
	}
	v := ci.Args[0]
	x, isIface := reflected(v)
	switch name {
	case "(reflect.Value).MethodByName":
		if x == nil || isIface {
			return nil, false
		}
		if st.evalNil(x) > 0 {
			return []Outcome{zeroValuePanic(st, name)}, true
		}
		if x.K != KIface {
			return nil, false
		}
		r := methodRV(x, "")
		if n, ok := StrVal(ci.Args[1]); ok {
			r = methodRV(x, n)
		}
		if _, f, _ := m.methodOfRV(r); f == nil {
			r = RV(Nil(TAny)) // the zero Value
		}
		return []Outcome{{St: st, Ret: r}}, true
	case "(reflect.Value).Type":
		if _, f, _ := m.methodOfRV(v); f != nil {
			sig := f.Type().(*types.Signature)
			return []Outcome{{St: st, Ret: RType(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))}}, true
		}
		if x != nil && !isIface && st.evalNil(x) > 0 {
			return []Outcome{zeroValuePanic(st, name)}, true
		}
	case "(reflect.Value).IsValid", "(reflect.Value).CanInterface":
		if _, f, _ := m.methodOfRV(v); f != nil {
			return []Outcome{{St: st, Ret: Bool(true)}}, true
		}
	case "(reflect.Value).IsNil":
		if _, f, _ := m.methodOfRV(v); f != nil {
			return []Outcome{{St: st, Ret: Bool(false)}}, true
		}
	case "(reflect.Value).Kind":
		if _, f, _ := m.methodOfRV(v); f != nil {
			return []Outcome{{St: st, Ret: ConstT(constInt(19), ci.Sig.Results().At(0).Type())}}, true
		}
	case "(reflect.Value).Call":
		return m.reflectCall(v, ci.Args[1], st)
	}
	return nil, false
}

func (m *Machine) reflectCall(v, in *Term, st *State) ([]Outcome, bool) {
	var fn, recv *Term
	var sig *types.Signature
	var callee *ssa.Function
	if r, f, dt := m.methodOfRV(v); f != nil {
		recv, sig = r, f.Type().(*types.Signature)
		callee = MethodOf(m.Prog, dt, f.Pkg(), f.Name())
		if callee == nil {
			return nil, false
		}
		sig = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	} else {
		x, isIface := reflected(v)
		if x == nil || isIface {
			return nil, false
		}
		if st.evalNil(x) > 0 {
			return []Outcome{zeroValuePanic(st, "Call")}, true
		}
		if x.K != KIface {
			return nil, false
		}
		s, ok := x.Typ.Underlying().(*types.Signature)
		if !ok {
			return []Outcome{reflectPanic(st, "call of Call on a value that is no function")}, true
		}
		fn, sig = x.Args[0], s
	}
	n := 0
	if k, ok := IntVal(st.Len(in)); ok {
		n = int(k)
	} else if in.K != KNil {
		return nil, false
	}
	np := NumIn(sig)
	if sig.Variadic() && n < np-1 || !sig.Variadic() && n != np {
		return []Outcome{reflectPanic(st, "Call with a wrong number of arguments")}, true
	}
	arr, lo, _, _ := st.SliceParts(in)
	type part struct {
		st   *State
		args []*Term
	}
	cur := []part{{st, nil}}
	var outs []Outcome
	for i := 0; i < n; i++ {
		var pt types.Type
		if sig.Variadic() && i >= np-1 {
			pt = ParamType(sig, np-1).Underlying().(*types.Slice).Elem()
		} else {
			pt = ParamType(sig, i)
		}
		var next []part
		for _, c := range cur {
			a := c.st.Load(IndexAddr(arr, Add(lo, Int(int64(i))), types.NewPointer(RVType)), RVType)
			oks, bad := argValue(c.st, a, pt)
			outs = append(outs, bad...)
			for _, o := range oks {
				next = append(next, part{o.St, append(append([]*Term{}, c.args...), o.Ret)})
			}
		}
		cur = next
	}
	for _, c := range cur {
		args := c.args
		s := c.st
		if sig.Variadic() {
			st := ParamType(sig, np-1)
			elem := st.Underlying().(*types.Slice).Elem()
			rest := args[np-1:]
			sl := Nil(st)
			if len(rest) > 0 {
				o := NewObj("rest", types.NewArray(elem, int64(len(rest))))
				for i, a := range rest {
					s.Store(IndexAddr(o, Int(int64(i)), types.NewPointer(elem)), a, elem)
				}
				k := Int(int64(len(rest)))
				sl = SliceT(st, o, Int(0), k, k)
			}
			args = append(append([]*Term{}, args[:np-1]...), sl)
		}
		var res []Outcome
		if callee != nil {
			res = m.invoke(&CallInfo{Fn: callee, Sig: callee.Signature, Args: append([]*Term{recv}, args...)}, s, -1)
		} else if fn.K == KFunc || fn.K == KClosure {
			res = m.CallValue(fn, args, s)
		} else {
			res = m.invoke(&CallInfo{FnTerm: fn, Sig: sig, Args: args}, s, -1)
		}
		for _, o := range res {
			if o.Panic == nil {
				o.Ret = o.St.reflectResults(o.Ret, sig.Results())
			}
			outs = append(outs, o)
		}
	}
	return outs, true
}

// argValue converts a reflect.Value to a parameter of a function.
func argValue(st *State, a *Term, pt types.Type) (oks, bad []Outcome) {
	x, isIface := reflected(a)
	if x == nil {
		return []Outcome{{St: st, Ret: st.intro(App("reflect.arg", pt, a))}}, nil
	}
	pi, piface := pt.Underlying().(*types.Interface)
	if isIface {
		if piface && (pi.Empty() || st.evalNil(x) > 0 || types.AssignableTo(x.Typ, pt)) {
			return []Outcome{{St: st, Ret: x}}, nil
		}
		return nil, []Outcome{reflectPanic(st, "Call using an interface value as "+typeName(pt))}
	}
	if st.evalNil(x) > 0 {
		return nil, []Outcome{reflectPanic(st, "Call using zero Value argument")}
	}
	dt := st.KnownType(x)
	if dt != nil {
		if !types.AssignableTo(dt, pt) {
			return nil, []Outcome{reflectPanic(st, "Call using "+typeName(dt)+" as type "+typeName(pt))}
		}
		if piface {
			return []Outcome{{St: st, Ret: x}}, nil
		}
		return []Outcome{{St: st, Ret: Unbox(x, dt)}}, nil
	}
	cond := Not(st.IsNil(x))
	if !piface {
		cond = TypeIs(x, pt)
	}
	no := st.Clone()
	if no.Assume(cond, false) {
		bad = append(bad, reflectPanic(no, "Call using a wrong argument"))
	}
	if st.Assume(cond, true) {
		if piface {
			oks = append(oks, Outcome{St: st, Ret: x})
		} else {
			oks = append(oks, Outcome{St: st, Ret: Unbox(x, pt)})
		}
	}
	return oks, bad
}

// reflectResults is the []reflect.Value of the results of a call.
func (s *State) reflectResults(ret *Term, res *types.Tuple) *Term {
	n := res.Len()
	t := types.NewSlice(RVType)
	if n == 0 {
		return SliceT(t, NewObj("results", types.NewArray(RVType, 0)), Int(0), Int(0), Int(0))
	}
	o := NewObj("results", types.NewArray(RVType, int64(n)))
	for i := 0; i < n; i++ {
		v := ret
		if n > 1 {
			v = ret.Args[i]
		}
		rt := res.At(i).Type()
		var rv *Term
		if _, ok := rt.Underlying().(*types.Interface); ok {
			rv = RVIface(v)
		} else {
			rv = RV(Iface(rt, v, TAny))
		}
		s.Store(IndexAddr(o, Int(int64(i)), types.NewPointer(RVType)), rv, RVType)
	}
	return SliceT(t, o, Int(0), Int(int64(n)), Int(int64(n)))
}
