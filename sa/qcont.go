package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/sa/ai"
)

func init() {
	register("Q09", "the container functions of qlang, as bound in the function table and the variables of package spec, are interpreted on maps, slices and arguments of every combination of element types; the value they yield and the container afterwards are compared with the operation they name", checkContainers)
}

// contH interprets functions on containers.
type contH struct {
	c     *Ctx
	m     *ai.Machine
	base  *S
	table *T
	mt    types.Type
	undef *T
}

func slotOf(v *T) (s, i *T, ok bool) {
	if v.K == ai.KApp && v.Name == "reflect.slot" {
		return v.Args[0], v.Args[1], true
	}
	return nil, nil, false
}

// boxedAs is a value of static type t as interface value.
func boxedAs(v *T, t types.Type) *T {
	if types.IsInterface(t) {
		return v
	}
	return ai.Iface(t, v, ai.TAny)
}

// rvOf is the reflect.Value of an element of static type t.
func rvOf(v *T, t types.Type) *T {
	if types.IsInterface(t) {
		return ai.RVIface(v)
	}
	return ai.RV(ai.Iface(t, v, ai.TAny))
}

// content is the interface value in a reflect.Value; valid is false for the
// zero Value.
func (h *contH) content(st *S, v *T) (x *T, valid bool) {
	if s, i, ok := slotOf(v); ok {
		sl := s.Typ.Underlying().(*types.Slice)
		arr, lo, _, _ := st.SliceParts(s.Args[0])
		return boxedAs(st.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(sl.Elem())), sl.Elem()), sl.Elem()), true
	}
	if v.K == ai.KApp && len(v.Args) == 1 {
		switch v.Name {
		case "reflect.ValueOf":
			return v.Args[0], st.Eval(st.IsNil(v.Args[0])) <= 0
		case "reflect.elem":
			return v.Args[0], true
		}
	}
	return nil, false
}

// as converts the content of a reflect.Value to an element type.
func (h *contH) as(st *S, v *T, t types.Type) (*T, bool) {
	x, valid := h.content(st, v)
	if !valid || x == nil {
		return nil, false
	}
	if types.IsInterface(t) {
		return x, true
	}
	if dt := st.KnownType(x); dt != nil && types.AssignableTo(dt, t) {
		return ai.Unbox(x, dt), true
	}
	return nil, false
}

func (h *contH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Fn == nil {
		return nil, false
	}
	name := ci.Fn.String()
	if (name == "math.Max" || name == "math.Min") && ci.Args[0].K == ai.KConst && ci.Args[1].K == ai.KConst {
		x, y := ci.Args[0], ci.Args[1]
		if constant.Compare(x.Val, token.LSS, y.Val) == (name == "math.Max") {
			x = y
		}
		return []ai.Outcome{{St: st, Ret: x}}, true
	}
	if !strings.HasPrefix(name, "reflect.") && !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	one := func(r *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: r}}, true }
	fail := func() ([]ai.Outcome, bool) {
		return []ai.Outcome{{St: st, Panic: st.NewError(ai.Str("panic of " + name))}}, true
	}
	a := ci.Args
	switch name {
	case "reflect.SliceOf":
		if t := ai.TypeOfRType(a[0]); t != nil {
			return one(ai.RType(types.NewSlice(t)))
		}
	case "reflect.MapOf":
		k, v := ai.TypeOfRType(a[0]), ai.TypeOfRType(a[1])
		if k != nil && v != nil {
			return one(ai.RType(types.NewMap(k, v)))
		}
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		if t := ai.TypeOfRType(a[0]); t != nil {
			if _, ok := t.Underlying().(*types.Map); !ok {
				return fail()
			}
			return one(ai.RV(ai.Iface(t, ai.NewObj("map", t), ai.TAny)))
		}
	case "reflect.MakeSlice":
		t := ai.TypeOfRType(a[0])
		n, ok := ai.IntVal(a[1])
		k, ok2 := ai.IntVal(a[2])
		if t != nil && ok && ok2 {
			if n < 0 || k < n {
				return fail()
			}
			return one(ai.RV(ai.Iface(t, h.slice(st, t.Underlying().(*types.Slice).Elem(), nil, n, k), ai.TAny)))
		}
	case "reflect.Append":
		x, _ := h.content(st, a[0])
		dt := st.KnownType(x)
		sl, ok := dt.Underlying().(*types.Slice)
		k, known := ai.IntVal(st.Len(a[1]))
		if !ok || !known {
			break
		}
		var vs []*T
		arr, lo, _, _ := st.SliceParts(a[1])
		for i := int64(0); i < k; i++ {
			v, ok := h.as(st, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(ai.RVType)), ai.RVType), sl.Elem())
			if !ok {
				return fail()
			}
			vs = append(vs, v)
		}
		add := h.slice(st, sl.Elem(), vs, k, k)
		return one(ai.RV(ai.Iface(dt, st.AppendModel(dt, ai.Unbox(x, dt), add), ai.TAny)))
	}
	if !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	if s, i, ok := slotOf(a[0]); ok && name == "(reflect.Value).Set" {
		sl := s.Typ.Underlying().(*types.Slice)
		v, ok := h.as(st, a[1], sl.Elem())
		if !ok {
			return fail()
		}
		arr, lo, _, _ := st.SliceParts(s.Args[0])
		st.Store(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(sl.Elem())), v, sl.Elem())
		return []ai.Outcome{{St: st}}, true
	}
	x, valid := h.content(st, a[0])
	if x == nil || !valid {
		return nil, false
	}
	if _, _, ok := slotOf(a[0]); ok {
		if name == "(reflect.Value).Interface" {
			return one(x)
		}
		m.Undecide("%s on an element of a slice", name)
		return nil, false
	}
	dt := st.KnownType(x)
	if dt == nil {
		return nil, false
	}
	switch u := dt.Underlying().(type) {
	case *types.Map:
		mo := ai.Unbox(x, dt)
		switch name {
		case "(reflect.Value).MapIndex":
			k, ok := h.as(st, a[1], u.Key())
			if !ok {
				return fail()
			}
			has, v := st.MapHas(mo, k, dt)
			switch {
			case has > 0:
				return one(rvOf(v, u.Elem()))
			case has < 0:
				return one(ai.RV(ai.Nil(ai.TAny)))
			}
		case "(reflect.Value).SetMapIndex":
			k, ok := h.as(st, a[1], u.Key())
			if !ok {
				return fail()
			}
			if _, valid := h.content(st, a[2]); !valid {
				st.SetAbsent(mo, k, dt)
				return []ai.Outcome{{St: st}}, true
			}
			v, ok := h.as(st, a[2], u.Elem())
			if !ok {
				return fail()
			}
			st.MapStore(mo, k, v, dt)
			return []ai.Outcome{{St: st}}, true
		case "(reflect.Value).Len":
			if ks, ok := st.MapKeys(mo); ok {
				return one(ai.Int(int64(len(ks))))
			}
		}
	case *types.Slice:
		arr, lo, n, k := st.SliceParts(ai.Unbox(x, dt))
		switch name {
		case "(reflect.Value).Index":
			if !st.GE(a[1], ai.Int(0)) || !st.GE(ai.AddK(n, -1), a[1]) {
				return fail()
			}
			return one(ai.App("reflect.slot", ai.RVType, ai.Iface(dt, ai.Unbox(x, dt), ai.TAny), a[1]))
		case "(reflect.Value).Cap":
			return one(k)
		case "(reflect.Value).Slice":
			if !st.GE(a[1], ai.Int(0)) || !st.GE(a[2], a[1]) || !st.GE(k, a[2]) {
				return fail()
			}
			return one(ai.RV(ai.Iface(dt, ai.SliceT(dt, arr, ai.Add(lo, a[1]), ai.Sub(a[2], a[1]), ai.Sub(k, a[1])), ai.TAny)))
		}
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			break
		}
		v := ai.Unbox(x, dt)
		switch name {
		case "(reflect.Value).Index":
			if !st.GE(a[1], ai.Int(0)) || !st.GE(ai.AddK(st.Len(v), -1), a[1]) {
				return fail()
			}
			t := types.Typ[types.Uint8]
			return one(ai.RV(ai.Iface(t, st.StrAt(v, a[1], t), ai.TAny)))
		case "(reflect.Value).Slice":
			if !st.GE(a[1], ai.Int(0)) || !st.GE(a[2], a[1]) || !st.GE(st.Len(v), a[2]) {
				return fail()
			}
			return one(ai.RV(ai.Iface(dt, st.Substr(v, a[1], a[2]), ai.TAny)))
		}
	}
	return nil, false
}

// slice makes a slice; missing elements are zero.
func (h *contH) slice(st *S, et types.Type, vs []*T, n, k int64) *T {
	o := ai.NewObj("slice", types.NewArray(et, k))
	for i := int64(0); i < k; i++ {
		v := ai.Zero(et)
		if i < int64(len(vs)) {
			v = vs[i]
		}
		st.Store(ai.IndexAddr(o, ai.Int(i), types.NewPointer(et)), v, et)
	}
	return ai.SliceT(types.NewSlice(et), o, ai.Int(0), ai.Int(n), ai.Int(k))
}

// args makes the variadic arguments.
func (h *contH) args(st *S, vs ...*T) *T {
	return h.slice(st, ai.TAny, vs, int64(len(vs)), int64(len(vs)))
}

// fn is the function of qlang with a name.
func (h *contH) fn(name string) *T {
	f := tableFn(h.base, h.table, h.mt, name)
	if f == nil || f.Fn == nil {
		h.c.Violate(h.c.P.Pkg(relBuiltin).Func("init").Pos(), relBuiltin, "the function "+name+" is not offered by qlang", nil)
		return nil
	}
	return f
}

// run calls a function: it yields the value and the state, or fails.
func (h *contH) run(what string, f *T, st *S, args []*T, fails bool, judge func(st *S, ret *T)) {
	if f == nil {
		return
	}
	h.m.RuntimePanics = true
	n := 0
	for _, o := range h.m.CallValue(f, args, st) {
		if o.Panic != nil {
			h.m.Check(o.St, fails, fnPos(f), "%s panics", what)
			continue
		}
		n++
		if h.m.Check(o.St, !fails, fnPos(f), "%s is not an error", what) {
			judge(o.St, o.Ret)
		}
	}
	if !fails {
		h.m.Check(st, n > 0, fnPos(f), "%s has no result", what)
	}
}

// sliceIs checks a slice (boxed).
func (h *contH) sliceIs(what string, f *T, st *S, v *T, et types.Type, want []*T) {
	dt := st.KnownType(v)
	sl, ok := types.Type(nil), false
	if dt != nil {
		sl = dt.Underlying()
		_, ok = sl.(*types.Slice)
	}
	if !h.m.Check(st, ok && types.Identical(sl.(*types.Slice).Elem(), et), fnPos(f), "%s has the type %v instead of a slice of %s", what, dt, et) {
		return
	}
	arr, lo, n, _ := st.SliceParts(ai.Unbox(v, dt))
	if !h.m.Check(st, st.EQ(n, ai.Int(int64(len(want)))), fnPos(f), "%s has %s elements instead of %d", what, n, len(want)) {
		return
	}
	for i, w := range want {
		x := st.Load(ai.IndexAddr(arr, ai.AddK(lo, int64(i)), types.NewPointer(et)), et)
		h.m.Check(st, sameResult(st, boxedAs(x, et), boxedAs(w, et)), fnPos(f), "%s has element %d %s instead of %s", what, i, x, w)
	}
}

// mapIs checks a map (boxed).
func (h *contH) mapIs(what string, f *T, st *S, v *T, mt *types.Map, want map[*T]*T) {
	dt := st.KnownType(v)
	if !h.m.Check(st, dt != nil && types.Identical(dt.Underlying(), mt), fnPos(f), "%s has the type %v instead of %s", what, dt, mt) {
		return
	}
	mo := ai.Unbox(v, dt)
	keys, ok := st.MapKeys(mo)
	if !h.m.Check(st, ok && len(keys) == len(want), fnPos(f), "%s has %d keys instead of %d", what, len(keys), len(want)) {
		return
	}
	for k, w := range want {
		has, x := st.MapHas(mo, k, dt)
		h.m.Check(st, has > 0 && sameResult(st, boxedAs(x, mt.Elem()), boxedAs(w, mt.Elem())), fnPos(f), "%s has for %s the value %s instead of %s", what, k, x, w)
	}
}

// sample is an argument.
type sample struct {
	kind string
	t    types.Type
	v    *T // the value
	box  *T
}

func (h *contH) sample(kind string, i int) sample {
	name := fmt.Sprintf("%s%d", kind, i)
	basic := map[string]types.BasicKind{"int": types.Int, "float64": types.Float64, "string": types.String, "byte": types.Uint8, "bool": types.Bool, "float32": types.Float32}
	switch kind {
	case "nil":
		return sample{kind, nil, nil, ai.Nil(ai.TAny)}
	case "undefined":
		return sample{kind, nil, h.undef, h.undef}
	}
	t := types.Typ[basic[kind]]
	v := ai.NamedSym("q9:"+name, t)
	return sample{kind, t, v, ai.Iface(t, v, ai.TAny)}
}

// joint is the element type of values: all int, all string, numbers, or any.
func joint(vs []sample) (types.Type, string) {
	all := func(kinds ...string) bool {
		for _, v := range vs {
			ok := false
			for _, k := range kinds {
				ok = ok || v.kind == k
			}
			if !ok {
				return false
			}
		}
		return true
	}
	switch {
	case all("int"):
		return types.Typ[types.Int], "int"
	case all("string"):
		return ai.TString, "string"
	case all("int", "float64"):
		return types.Typ[types.Float64], "float"
	}
	return ai.TAny, "any"
}

// elem is a value as element of a container of the joint type.
func (s sample) elem(st *S, kind string) *T {
	switch {
	case kind == "any":
		return s.box
	case kind == "float" && s.kind != "float64":
		return st.Convert(s.v, s.t, types.Typ[types.Float64])
	}
	return s.v
}

func tuples(kinds []string, n int) [][]string {
	if n == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for _, t := range tuples(kinds, n-1) {
		for _, k := range kinds {
			out = append(out, append(append([]string{}, t...), k))
		}
	}
	return out
}

func kinds(vs []sample) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.kind)
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func checkContainers(c *Ctx) {
	c.Rule("a list or map literal has its values in order, with the element type int, string or float64 (numbers) that all have, any otherwise; append adds its arguments behind the elements, converted to the element type; get, set, delete and sub (index and slice expressions) read and write exactly the element, key or part named; len and cap count; max and min yield the largest and smallest number, byte, int, float and string convert; slice, mkmap, sliceOf, mapOf make the type named")
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	h := &contH{c: c, base: qBase(c), m: c.Machine()}
	h.m.Hook = h.hook
	h.m.Unroll = 64
	h.table, h.mt = specTable(c, h.base)
	h.undef = globalVal(c, h.base, relSpec, "Undefined")
	max := 3
	if c.Tier == "thorough" {
		max = 4
	}
	all := []string{"int", "float64", "string", "byte", "bool", "nil", "undefined"}
	specFn := func(name string) *T {
		v := globalVal(c, h.base, relSpec, name)
		if v == nil || v.Fn == nil {
			c.Missing("the function bound to " + name)
			return nil
		}
		return v
	}
	samples := func(ks []string) (vs []sample) {
		for i, k := range ks {
			vs = append(vs, h.sample(k, i))
		}
		return
	}
	boxes := func(vs []sample) (out []*T) {
		for _, v := range vs {
			out = append(out, v.box)
		}
		return
	}
	// list literals
	cnt := 0
	for _, f := range []*T{h.fn("sliceFrom"), specFn("SliceFrom")} {
		for n := 0; n <= max; n++ {
			for _, ks := range tuples(all, n) {
				vs := samples(ks)
				st := h.base.Clone()
				et, kind := joint(vs)
				if n == 0 {
					et = ai.TAny
				}
				what := "the list of " + kinds(vs)
				cnt++
				h.run(what, f, st, []*T{h.args(st, boxes(vs)...)}, false, func(st *S, ret *T) {
					var want []*T
					for _, v := range vs {
						want = append(want, v.elem(st, kind))
					}
					h.sliceIs(what, f, st, ret, et, want)
				})
			}
		}
	}
	c.Case("%d lists", cnt)
	c.Absorb("lists", h.m)
	h.maps(all, specFn, samples)
	h.appends(all, samples)
	h.access(specFn)
	h.numbers()
	h.made()
}

// maps interprets map literals.
func (h *contH) maps(all []string, specFn func(string) *T, samples func([]string) []sample) {
	cnt := 0
	keyKinds := []string{"int", "string", "float64", "bool", "nil"}
	for _, f := range []*T{h.fn("mapFrom"), specFn("MapFrom")} {
		for n := 0; n <= 2; n++ {
			for _, kk := range tuples(keyKinds, n) {
				for _, dup := range []bool{false, true} {
					if dup && (n < 2 || kk[0] != kk[1]) {
						continue
					}
					var ks []*T
					kt, bad := types.Type(ai.TString), false
					for i, k := range kk {
						j := i
						if dup {
							j = 0
						}
						switch k {
						case "int":
							ks = append(ks, ai.Int(int64(7+j)))
						case "string":
							ks = append(ks, ai.Str(string(rune('a'+j))))
						default:
							ks = append(ks, nil)
						}
						bad = bad || k != kk[0] || k != "int" && k != "string"
					}
					if n > 0 && kk[0] == "int" {
						kt = types.Typ[types.Int]
					}
					for _, vk := range tuples(all, n) {
						if bad && n > 0 && vk[0] != "int" {
							continue
						}
						vs := samples(vk)
						st := h.base.Clone()
						et, kind := joint(vs)
						if n == 0 {
							et = ai.TAny
						}
						var args []*T
						for i, k := range kk {
							box := h.sample(k, i+9).box
							if ks[i] != nil {
								box = ai.Iface(kt, ks[i], ai.TAny)
								if bad {
									box = ai.Iface(ks[i].Typ, ks[i], ai.TAny)
								}
							}
							args = append(args, box, vs[i].box)
						}
						what := fmt.Sprintf("the map of %s to %s", strings.Join(kk, ", "), kinds(vs))
						cnt++
						h.run(what, f, st, []*T{h.args(st, args...)}, bad, func(st *S, ret *T) {
							want := map[*T]*T{}
							for i, v := range vs {
								if v.kind != "undefined" {
									want[ks[i]] = v.elem(st, kind)
								}
							}
							h.mapIs(what, f, st, ret, types.NewMap(kt, et), want)
						})
					}
				}
			}
		}
		st := h.base.Clone()
		h.run("a map of three values", f, st, []*T{h.args(st, ai.Iface(ai.TString, ai.Str("a"), ai.TAny), h.sample("int", 1).box, ai.Iface(ai.TString, ai.Str("b"), ai.TAny))}, true, nil)
	}
	h.c.Case("%d maps", cnt)
	h.c.Absorb("maps", h.m)
}

func (h *contH) appends(all []string, samples func([]string) []sample) {
	f := h.fn("append")
	cnt := 0
	for _, ek := range []string{"int", "float64", "string", "byte", "any"} {
		for n := 0; n <= 2; n++ {
			for _, ks := range tuples(append([]string{"float32"}, all...), n) {
				var et types.Type = ai.TAny
				if ek != "any" {
					et = h.sample(ek, 0).t
				}
				vs := samples(ks)
				st := h.base.Clone()
				var want, boxes []*T
				bad := false
				old := []*T{ai.FreshVal(st, "old0", et), ai.FreshVal(st, "old1", et)}
				want = append(want, old...)
				for _, v := range vs {
					boxes = append(boxes, v.box)
					switch {
					case ek == "any":
						want = append(want, v.box)
					case v.kind == ek:
						want = append(want, v.v)
					case ek == "float64" && (v.kind == "int" || v.kind == "float32"):
						want = append(want, st.Convert(v.v, v.t, et))
					case ek != "float64" && v.kind == "nil":
						want = append(want, ai.Zero(et))
					default:
						bad = true
					}
				}
				what := "append to a list of " + ek + " with " + kinds(vs)
				a := ai.Iface(types.NewSlice(et), h.slice(st, et, old, 2, 2), ai.TAny)
				cnt++
				h.run(what, f, st, []*T{a, h.args(st, boxes...)}, bad, func(st *S, ret *T) {
					h.sliceIs(what, f, st, ret, et, want)
				})
			}
		}
	}
	h.c.Case("%d calls of append", cnt)
	h.c.Absorb("append", h.m)
}

// access interprets reading and writing of elements.
func (h *contH) access(specFn func(string) *T) {
	kt := map[string]types.Type{"string": ai.TString, "int": types.Typ[types.Int]}
	key := func(k string, i int) *T {
		if k == "int" {
			return ai.Int(int64(7 + i))
		}
		return ai.Str(string(rune('a' + i)))
	}
	box := func(v *T, t types.Type) *T { return ai.Iface(t, v, ai.TAny) }
	intT := types.Typ[types.Int]
	cnt := 0
	for _, ek := range []string{"int", "float64", "string", "byte", "any"} {
		var et types.Type = ai.TAny
		if ek != "any" {
			et = h.sample(ek, 0).t
		}
		elem := func(st *S, name string) *T { return ai.FreshVal(st, name, et) }
		value := func(kind string, i int) (v *T, box *T, ok bool) {
			s := h.sample(kind, i)
			switch {
			case ek == "any":
				return s.box, s.box, true
			case kind == "nil":
				return ai.Zero(et), s.box, true
			}
			return s.v, s.box, kind == ek
		}
		for _, kk := range []string{"string", "int"} {
			mt := types.NewMap(kt[kk], et)
			build := func(st *S) (*T, map[*T]*T) {
				o := ai.NewObj("themap", mt)
				want := map[*T]*T{}
				for i := 0; i < 2; i++ {
					v := elem(st, "val")
					st.MapStore(o, key(kk, i), v, mt)
					want[key(kk, i)] = v
				}
				return box(o, mt), want
			}
			for i := 0; i < 3; i++ {
				for _, f := range []*T{h.fn("get"), specFn("Get")} {
					st := h.base.Clone()
					m, want := build(st)
					what := fmt.Sprintf("key %d of a map of %s", i, ek)
					cnt++
					h.run(what, f, st, []*T{m, box(key(kk, i), kt[kk])}, false, func(st *S, ret *T) {
						w := h.undef
						if i < 2 {
							w = boxedAs(want[key(kk, i)], et)
						}
						h.m.Check(st, sameResult(st, ret, w), fnPos(f), "%s is %s instead of %s", what, ret, w)
						h.mapIs("the map read", f, st, m, mt, want)
					})
				}
				f := h.fn("delete")
				st := h.base.Clone()
				m, want := build(st)
				delete(want, key(kk, i))
				what := fmt.Sprintf("a map of %s without key %d", ek, i)
				h.run(what, f, st, []*T{m, box(key(kk, i), kt[kk])}, false, func(st *S, ret *T) {
					h.mapIs(what, f, st, m, mt, want)
				})
				for _, kind := range []string{ek, "int", "string", "nil", "undefined"} {
					if kind == "any" {
						continue
					}
					for j := -1; j < 3; j++ {
						for _, f := range []*T{h.fn("set")} {
							st := h.base.Clone()
							m, want := build(st)
							args := []*T{box(key(kk, i), kt[kk])}
							v, b, ok := value(kind, 1)
							args = append(args, b)
							set := func(i int, v *T, kind string) {
								if kind == "undefined" {
									delete(want, key(kk, i))
								} else {
									want[key(kk, i)] = v
								}
							}
							set(i, v, kind)
							if j >= 0 {
								v, b, _ := value(ek, 2)
								if ek == "any" {
									v, b, _ = value("int", 2)
								}
								args = append(args, box(key(kk, j), kt[kk]), b)
								set(j, v, ek)
							}
							what := fmt.Sprintf("a map of %s with key %d set to %s and then key %d", ek, i, kind, j)
							cnt++
							h.run(what, f, st, []*T{m, h.args(st, args...)}, !ok && kind != "undefined", func(st *S, ret *T) {
								h.mapIs(what, f, st, m, mt, want)
							})
							if j >= 0 {
								continue
							}
							st = h.base.Clone()
							m, _ = build(st)
							h.run("set with a key without value", f, st, []*T{m, h.args(st, box(key(kk, i), kt[kk]))}, true, nil)
						}
					}
				}
			}
			st := h.base.Clone()
			m, _ := build(st)
			f := h.fn("len")
			h.run("len of a map", f, st, []*T{m}, false, func(st *S, ret *T) {
				h.m.Check(st, st.EQ(ret, ai.Int(2)), fnPos(f), "the length of a map of 2 is %s", ret)
			})
		}
		// slices
		slT := types.NewSlice(et)
		const n, k = 3, 5
		build := func(st *S) (*T, []*T) {
			var vs []*T
			for i := 0; i < k; i++ {
				vs = append(vs, elem(st, "el"))
			}
			return ai.Iface(slT, h.slice(st, et, vs, n, k), ai.TAny), vs
		}
		for i := int64(-1); i <= n; i++ {
			for _, f := range []*T{h.fn("get"), specFn("Get")} {
				st := h.base.Clone()
				a, vs := build(st)
				what := fmt.Sprintf("element %d of a list of 3 %s", i, ek)
				cnt++
				h.run(what, f, st, []*T{a, box(ai.Int(i), intT)}, i < 0 || i >= n, func(st *S, ret *T) {
					h.m.Check(st, sameResult(st, ret, boxedAs(vs[i], et)), fnPos(f), "%s is %s instead of %s", what, ret, vs[i])
					h.sliceIs("the list read", f, st, a, et, vs[:n])
				})
			}
			for _, kind := range []string{ek, "int", "string"} {
				if kind == "any" {
					continue
				}
				for j := int64(-1); j < n; j++ {
					for _, f := range []*T{h.fn("set")} {
						st := h.base.Clone()
						a, vs := build(st)
						args := []*T{box(ai.Int(i), intT)}
						v, b, ok := value(kind, 1)
						args = append(args, b)
						bad := !ok || i < 0 || i >= n
						if !bad {
							vs[i] = v
						}
						if j >= 0 {
							kind2 := ek
							if ek == "any" {
								kind2 = "int"
							}
							v, b, _ := value(kind2, 2)
							args = append(args, box(ai.Int(j), intT), b)
							vs[j] = v
						}
						what := fmt.Sprintf("a list of 3 %s with element %d set to %s and then element %d", ek, i, kind, j)
						cnt++
						h.run(what, f, st, []*T{a, h.args(st, args...)}, bad, func(st *S, ret *T) {
							h.sliceIs(what, f, st, a, et, vs[:n])
						})
					}
				}
			}
		}
		for _, f := range []*T{h.fn("sub"), specFn("SubSlice")} {
			for i := int64(-2); i <= k+1; i++ {
				for j := int64(-2); j <= k+1; j++ {
					st := h.base.Clone()
					a, vs := build(st)
					from, to, fi, ti := int64(0), int64(n), ai.Nil(ai.TAny), ai.Nil(ai.TAny)
					if i != -1 {
						from, fi = i, box(ai.Int(i), intT)
					}
					if j != -1 {
						to, ti = j, box(ai.Int(j), intT)
					}
					what := fmt.Sprintf("the part [%d:%d] of a list of 3 %s (-1: missing)", i, j, ek)
					cnt++
					h.run(what, f, st, []*T{a, fi, ti}, from < 0 || from > to || to > k, func(st *S, ret *T) {
						h.sliceIs(what, f, st, ret, et, vs[from:to])
						// it is a part of the same list
						dt := st.KnownType(ret)
						arr, _, _, _ := st.SliceParts(ai.Unbox(ret, dt))
						arr0, _, _, _ := st.SliceParts(a.Args[0])
						h.m.Check(st, arr == arr0, fnPos(f), "%s is a copy", what)
					})
				}
			}
		}
		for name, w := range map[string]int64{"len": n, "cap": k} {
			f := h.fn(name)
			st := h.base.Clone()
			a, _ := build(st)
			h.run(name+" of a list", f, st, []*T{a}, false, func(st *S, ret *T) {
				h.m.Check(st, st.EQ(ret, ai.Int(w)), fnPos(f), "%s of a list with %d elements and room for %d is %s", name, n, k, ret)
			})
		}
	}
	// strings
	s := ai.NewSym("text", ai.TString)
	st0 := h.base.Clone()
	st0.Assume(ai.EQ0(ai.LinOf(ai.AddK(st0.Len(s), -3))), true)
	bs := ai.Iface(ai.TString, s, ai.TAny)
	for i := int64(0); i < 3; i++ {
		for _, f := range []*T{h.fn("get"), specFn("Get")} {
			h.run("a character of a string", f, st0.Clone(), []*T{bs, box(ai.Int(i), intT)}, false, func(st *S, ret *T) {
				t := types.Typ[types.Uint8]
				h.m.Check(st, sameResult(st, ret, ai.Iface(t, st.StrAt(s, ai.Int(i), t), ai.TAny)), fnPos(f), "character %d of a string is %s", i, ret)
			})
		}
		for _, f := range []*T{h.fn("sub"), specFn("SubSlice")} {
			h.run("a part of a string", f, st0.Clone(), []*T{bs, box(ai.Int(i), intT), ai.Nil(ai.TAny)}, false, func(st *S, ret *T) {
				want := ai.Iface(ai.TString, st.Substr(s, ai.Int(i), st.Len(s)), ai.TAny)
				h.m.Check(st, sameResult(st, ret, want), fnPos(f), "the part [%d:] of a string is %s instead of %s", i, ret, want)
			})
		}
	}
	for _, name := range []string{"len", "cap"} {
		f := h.fn(name)
		h.run(name+" of nil", f, h.base.Clone(), []*T{ai.Nil(ai.TAny)}, false, func(st *S, ret *T) {
			h.m.Check(st, st.EQ(ret, ai.Int(0)), fnPos(f), "%s of nil is %s", name, ret)
		})
	}
	f := h.fn("len")
	h.run("len of a string", f, st0.Clone(), []*T{bs}, false, func(st *S, ret *T) {
		h.m.Check(st, st.EQ(ret, st.Len(s)), fnPos(f), "the length of a string is %s", ret)
	})
	h.c.Case("%d accesses to maps, lists and strings", cnt)
	h.c.Absorb("access", h.m)
}

// numbers interprets max, min and the conversions.
func (h *contH) numbers() {
	intT, floatT, byteT := types.Typ[types.Int], types.Typ[types.Float64], types.Typ[types.Uint8]
	for _, name := range []string{"max", "min"} {
		f := h.fn(name)
		st := h.base.Clone()
		h.run(name+" of nothing", f, st, []*T{h.args(st)}, false, func(st *S, ret *T) {
			h.m.Check(st, sameResult(st, ret, ai.Iface(intT, ai.Int(0), ai.TAny)), fnPos(f), "%s of nothing is %s", name, ret)
		})
		for n := 1; n <= 3; n++ {
			for _, perm := range permsOf(n) {
				for _, ks := range tuples([]string{"int", "float64", "string"}, n) {
					st := h.base.Clone()
					var args []*T
					float, bad := false, false
					best := perm[0]
					for i, k := range ks {
						switch k {
						case "int":
							args = append(args, ai.Iface(intT, ai.Int(int64(perm[i]-2)), ai.TAny))
						case "float64":
							float = true
							args = append(args, ai.Iface(floatT, ai.ConstT(constant.MakeFloat64(float64(perm[i]-2)), floatT), ai.TAny))
						default:
							bad = true
							args = append(args, ai.Iface(ai.TString, ai.Str("x"), ai.TAny))
						}
						if (perm[i] > best) == (name == "max") {
							best = perm[i]
						}
					}
					what := fmt.Sprintf("%s of %v minus 2 as %s", name, perm, strings.Join(ks, ", "))
					want := ai.Iface(intT, ai.Int(int64(best-2)), ai.TAny)
					if float {
						want = ai.Iface(floatT, ai.ConstT(constant.MakeFloat64(float64(best-2)), floatT), ai.TAny)
					}
					h.run(what, f, st, []*T{h.args(st, args...)}, bad, func(st *S, ret *T) {
						h.m.Check(st, sameResult(st, ret, want) || sameConst(ret, want), fnPos(f), "%s is %s instead of %s", what, ret, want)
					})
				}
			}
		}
	}
	for name, t := range map[string]types.Type{"int": intT, "float": floatT, "byte": byteT, "string": ai.TString} {
		f := h.fn(name)
		for _, k := range []string{"int", "float64", "byte", "string", "bool", "nil"} {
			s := h.sample(k, 1)
			ok := k == "int" || k == "byte" || k == "float64" && name != "string"
			what := name + " of a value of type " + k
			h.run(what, f, h.base.Clone(), []*T{s.box}, !ok, func(st *S, ret *T) {
				v := s.v
				if !types.Identical(s.t, t) {
					v = st.Convert(s.v, s.t, t)
				}
				h.m.Check(st, sameResult(st, ret, ai.Iface(t, v, ai.TAny)), fnPos(f), "%s is %s instead of %s", what, ret, v)
			})
		}
	}
	h.c.Absorb("numbers", h.m)
}

func sameConst(x, y *T) bool {
	if x.K != ai.KIface || y.K != ai.KIface || !types.Identical(x.Typ, y.Typ) {
		return false
	}
	a, b := x.Args[0], y.Args[0]
	return a.K == ai.KConst && b.K == ai.KConst && a.Val.Kind() != constant.String && constant.Compare(constant.ToFloat(a.Val), 39, constant.ToFloat(b.Val))
}

func permsOf(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range permsOf(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n), p[i:]...)
			out = append(out, q)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// made interprets the functions that make containers and types.
func (h *contH) made() {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	names := map[string]types.Type{"int": b(types.Int), "bool": b(types.Bool), "float": b(types.Float64), "string": ai.TString, "byte": b(types.Uint8), "var": ai.TAny,
		"string:int": types.NewMap(ai.TString, b(types.Int)), "string:float": types.NewMap(ai.TString, b(types.Float64)), "string:string": types.NewMap(ai.TString, ai.TString), "string:var": types.NewMap(ai.TString, ai.TAny)}
	str := func(s string) *T { return ai.Iface(ai.TString, ai.Str(s), ai.TAny) }
	num := func(k int64) *T { return ai.Iface(types.Typ[types.Int], ai.Int(k), ai.TAny) }
	isType := func(f *T, what string, st *S, ret *T, want types.Type) {
		r := ret
		got := ai.TypeOfRType(r)
		if got == nil && r != nil && r.K == ai.KIface {
			got = ai.TypeOfRType(ai.Iface(r.Typ, r.Args[0], ai.RTType))
		}
		h.m.Check(st, got != nil && types.Identical(got, want), fnPos(f), "%s is %v instead of %s", what, got, want)
	}
	sliceOf, mapOf, slice, mkmap := h.fn("sliceOf"), h.fn("mapOf"), h.fn("slice"), h.fn("mkmap")
	for name, t := range names {
		st := h.base.Clone()
		h.run("sliceOf "+name, sliceOf, st, []*T{str(name)}, false, func(st *S, ret *T) { isType(sliceOf, "sliceOf "+name, st, ret, types.NewSlice(t)) })
		for _, key := range []string{"string", "int"} {
			what := "mapOf " + key + ", " + name
			st = h.base.Clone()
			h.run(what, mapOf, st, []*T{str(key), str(name)}, false, func(st *S, ret *T) { isType(mapOf, what, st, ret, types.NewMap(names[key], t)) })
		}
		st = h.base.Clone()
		_, isMap := t.(*types.Map)
		h.run("mkmap "+name, mkmap, st, []*T{str(name), ai.Nil(types.NewSlice(types.Typ[types.Int]))}, !isMap, func(st *S, ret *T) {
			h.mapIs("mkmap "+name, mkmap, st, ret, t.(*types.Map), nil)
		})
		for _, as := range [][]int64{nil, {0}, {2}, {1, 3}, {0, 2}, {2, 2}, {3, 1}} {
			st = h.base.Clone()
			var args []*T
			n, k := int64(0), int64(0)
			for i, a := range as {
				args = append(args, num(a))
				if i == 0 {
					n = a
				}
				k = a
			}
			what := fmt.Sprintf("slice %s %v", name, as)
			h.run(what, slice, st, []*T{str(name), h.args(st, args...)}, k < n, func(st *S, ret *T) {
				want := make([]*T, n)
				for i := range want {
					want[i] = ai.Zero(t)
				}
				h.sliceIs(what, slice, st, ret, t, want)
				if dt := st.KnownType(ret); dt != nil {
					_, _, _, c := st.SliceParts(ai.Unbox(ret, dt))
					h.m.Check(st, st.EQ(c, ai.Int(k)), fnPos(slice), "%s has room for %s instead of %d", what, c, k)
				}
			})
		}
	}
	for _, as := range [][]*T{{str("x")}, {num(1), str("x")}, {str("x"), num(1)}} {
		st := h.base.Clone()
		h.run("slice with a size that is not an int", slice, st, []*T{str("int"), h.args(st, as...)}, true, nil)
	}
	for _, bad := range []*T{str("nonsense"), num(1), ai.Nil(ai.TAny)} {
		h.run("sliceOf an unknown type", sliceOf, h.base.Clone(), []*T{bad}, true, nil)
	}
	h.c.Absorb("made", h.m)
}
