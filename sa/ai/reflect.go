package ai

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/packages"
)

// RVType and RTType are reflect.Value and reflect.Type of the loaded program.
var RVType, RTType types.Type

func findReflect(pkgs []*packages.Package) {
	packages.Visit(pkgs, func(p *packages.Package) bool {
		if p.PkgPath == "reflect" && p.Types != nil {
			if o := p.Types.Scope().Lookup("Value"); o != nil {
				RVType = o.Type()
			}
			if o := p.Types.Scope().Lookup("Type"); o != nil {
				RTType = o.Type()
			}
		}
		return true
	}, nil)
}

// RV is reflect.ValueOf of an interface value.
func RV(x *Term) *Term { return App("reflect.ValueOf", RVType, x) }

// RVIface is a reflect.Value of interface kind that holds x (an element of a
// []interface{}, say).
func RVIface(x *Term) *Term { return App("reflect.elem", RVType, x) }

// rtypePtr is the synthetic dynamic type of reflect.Type values.
var rtypePtr = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("reflect", "reflect"), "rtype", nil), types.NewStruct(nil, nil), nil))

var rtypes = map[int]*Term{}
var rtypeOf = map[*Term]types.Type{}

// RType is the reflect.Type of a type.
func RType(t types.Type) *Term {
	id := T.tid(t)
	o := rtypes[id]
	if o == nil {
		o = NewObj("rtype:"+typeName(t), rtypePtr.Elem())
		rtypes[id] = o
		rtypeOf[o] = t
	}
	return Iface(rtypePtr, o, RTType)
}

// TypeOfRType is the type a reflect.Type stands for (nil: unknown).
func TypeOfRType(x *Term) types.Type {
	if x != nil && x.K == KIface && x.Typ == rtypePtr {
		return rtypeOf[x.Args[0]]
	}
	return nil
}

// reflected yields the interface value inside a reflect.Value.
func reflected(v *Term) (x *Term, iface bool) {
	if v.K == KApp && len(v.Args) == 1 {
		switch v.Name {
		case "reflect.ValueOf":
			return v.Args[0], false
		case "reflect.elem":
			return v.Args[0], true
		}
	}
	return nil, false
}

// reflectFn models package reflect as far as values and types are known.
func (m *Machine) reflectFn(name string, args []*Term, res types.Type, st *State) (*Term, bool) {
	kind := func(k int) *Term { return ConstT(constant.MakeInt64(int64(k)), res) }
	switch name {
	case "reflect.ValueOf":
		return RV(args[0]), true
	case "reflect.TypeOf":
		if dt := st.KnownType(args[0]); dt != nil {
			return RType(dt), true
		}
		if st.evalNil(args[0]) > 0 {
			return Nil(RTType), true
		}
		return App("reflect.TypeOf", RTType, args[0]), true
	case "reflect.Zero":
		if t := TypeOfRType(args[0]); t != nil {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return RVIface(Nil(t)), true
			}
			return RV(Iface(t, Zero(t), TAny)), true
		}
		return App("reflect.Zero", RVType, args[0]), true
	}
	if len(args) == 0 {
		return nil, false
	}
	x, isIface := reflected(args[0])
	if x == nil {
		return nil, false
	}
	dt := st.KnownType(x)
	switch name {
	case "(reflect.Value).Kind":
		switch {
		case isIface:
			return kind(20), true
		case st.evalNil(x) > 0:
			return kind(0), true
		case dt != nil:
			return kind(ReflectKind(dt)), true
		}
		return App("reflect.Kind", res, x), true
	case "(reflect.Value).Type":
		if isIface {
			return nil, false
		}
		if dt != nil {
			return RType(dt), true
		}
		return App("reflect.TypeOf", RTType, x), true
	case "(reflect.Value).Interface":
		return x, true
	case "(reflect.Value).Elem":
		if isIface {
			return RV(x), true
		}
	case "(reflect.Value).IsValid":
		if isIface {
			return Bool(true), true
		}
		return Not(st.IsNil(x)), true
	case "(reflect.Value).IsNil":
		if isIface {
			return st.IsNil(x), true
		}
		if dt != nil && x.K == KIface {
			return st.IsNil(x.Args[0]), true
		}
	case "(reflect.Value).Pointer":
		if x.K == KIface && x.Args[0].K == KFunc {
			return ConstT(constInt(int64(1000000+x.Args[0].ID*16)), res), true
		}
	case "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float", "(reflect.Value).Complex", "(reflect.Value).String", "(reflect.Value).Bool":
		if isIface || dt == nil {
			return nil, false
		}
		b, ok := dt.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		var need types.BasicInfo
		switch name[len("(reflect.Value)."):] {
		case "Int", "Uint":
			need = types.IsInteger
			if (b.Info()&types.IsUnsigned != 0) != (name == "(reflect.Value).Uint") {
				return nil, false
			}
		case "Float":
			need = types.IsFloat
		case "Complex":
			need = types.IsComplex
		case "String":
			need = types.IsString
		case "Bool":
			need = types.IsBoolean
		}
		if b.Info()&need == 0 {
			return nil, false
		}
		return st.Convert(Unbox(x, dt), dt, res), true
	case "(reflect.Value).Len":
		if dt != nil {
			switch dt.Underlying().(type) {
			case *types.Slice:
				return st.Len(Unbox(x, dt)), true
			case *types.Basic:
				return st.Len(Unbox(x, dt)), true
			}
		}
		r := App("reflect.Len", TInt, x)
		st.Lin.AddGE0(LinOf(r))
		return r, true
	case "(reflect.Value).Index":
		if dt != nil {
			if sl, ok := dt.Underlying().(*types.Slice); ok {
				arr, lo, _, _ := st.SliceParts(Unbox(x, dt))
				v := st.Load(IndexAddr(arr, Add(lo, args[1]), types.NewPointer(sl.Elem())), sl.Elem())
				if _, ok := sl.Elem().Underlying().(*types.Interface); ok {
					return RVIface(v), true
				}
				return RV(Iface(sl.Elem(), v, TAny)), true
			}
		}
		return RVIface(App("reflect.Index", TAny, x, args[1])), true
	}
	return nil, false
}

// reflectType models the methods of reflect.Type on known types.
func reflectType(name string, t types.Type, args []*Term, res types.Type) (*Term, bool) {
	sig, _ := t.Underlying().(*types.Signature)
	switch name {
	case "Kind":
		return ConstT(constant.MakeInt64(int64(ReflectKind(t))), res), true
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return RType(u.Elem()), true
		case *types.Slice:
			return RType(u.Elem()), true
		case *types.Map:
			return RType(u.Elem()), true
		}
	case "String", "Name":
		return Str(typeName(t)), true
	}
	if sig != nil {
		switch name {
		case "NumIn":
			return Int(int64(NumIn(sig))), true
		case "NumOut":
			return Int(int64(sig.Results().Len())), true
		case "IsVariadic":
			return Bool(sig.Variadic()), true
		case "In", "Out":
			if i, ok := IntVal(args[0]); ok && i >= 0 {
				var pt types.Type
				if name == "In" {
					pt = ParamType(sig, int(i))
				} else if int(i) < sig.Results().Len() {
					pt = sig.Results().At(int(i)).Type()
				}
				if pt != nil {
					return RType(pt), true
				}
			}
		}
	}
	return nil, false
}

// NumIn is the number of parameters of a function type as reflect counts them.
func NumIn(sig *types.Signature) int {
	n := sig.Params().Len()
	if sig.Recv() != nil {
		n++
	}
	return n
}

// ParamType is the type of a parameter as reflect counts them.
func ParamType(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	if i < 0 || i >= sig.Params().Len() {
		return nil
	}
	return sig.Params().At(i).Type()
}
