package main

import (
	"go/types"

	"verif/sa/ai"
)

func init() {
	register("Q02", "the handlers of the compound assignments are interpreted for every way the variable can be bound", checkCompound)
	register("Q05", "the handlers of references and assignments are interpreted for chains of up to four scopes and every way each can hold the name", checkScopes)
}

// binding is one consistent way a chain of scopes (0 innermost) holds a name.
type binding struct {
	k    []int // per scope: 0 absent, 1 holds it, 2 refers to the scope that holds it
	home int   // the scope that holds it; -1: none
}

// bindings enumerates them: a scope may refer to the innermost scope around
// it that holds the name.
func bindings(n int) []binding {
	var out []binding
	var rec func(i int, k []int)
	rec = func(i int, k []int) {
		if i == n {
			b := binding{k: append([]int{}, k...), home: -1}
			for j := n - 1; j >= 0; j-- {
				if k[j] == 1 {
					b.home = j
				}
			}
			out = append(out, b)
			return
		}
		for v := 0; v < 3; v++ {
			rec(i+1, append(k, v))
		}
	}
	rec(0, nil)
	var ok []binding
	for _, b := range out {
		good := true
		for i, v := range b.k {
			if v == 2 {
				h := -1
				for j := i + 1; j < n; j++ {
					if b.k[j] == 1 {
						h = j
						break
					}
				}
				if h < 0 {
					good = false
				}
			}
		}
		if good {
			ok = append(ok, b)
		}
	}
	return ok
}

// owner is the scope a reference from scope i resolves to.
func (b binding) owner(i int) int {
	for j := i; j < len(b.k); j++ {
		if b.k[j] == 1 {
			return j
		}
	}
	return -1
}

// refers: some scope refers to an outer one.
func (b binding) refers() bool {
	for _, v := range b.k {
		if v == 2 {
			return true
		}
	}
	return false
}

func (b binding) String() string {
	s := ""
	for i, v := range b.k {
		if i > 0 {
			s += ", "
		}
		s += []string{"not in", "in", "referred to in"}[v] + " " + []string{"the current scope", "its parent", "the scope above", "the outermost scope", "further out"}[i]
	}
	return s
}

// chain builds the scopes of a binding with the name bound in it.
func (h *qclH) chain(b binding, name string) (scopes, vals []*T) {
	n := len(b.k)
	scopes, vals = make([]*T, n), make([]*T, n)
	var parent *T
	for i := n - 1; i >= 0; i-- {
		scopes[i] = h.scope("scope"+string(rune('0'+i)), parent)
		parent = scopes[i]
	}
	for i, v := range b.k {
		switch v {
		case 0, 2:
			h.noVar(scopes[i], name)
		case 1:
			// an ordinary value
			vals[i] = ai.FreshVal(h.st, "old", ai.TAny)
			for _, t := range h.inner() {
				h.st.Assume(ai.TypeIs(vals[i], t), false)
			}
			h.setVar(scopes[i], name, vals[i])
		}
		h.setVar(scopes[i], other, ai.NewSym("y", ai.TAny))
	}
	for i := n - 1; i >= 0; i-- {
		if b.k[i] == 2 {
			if !h.refer(scopes[i], name) {
				return nil, nil
			}
		}
	}
	return scopes, vals
}

const other = "y0"

// inner lists the unexported types of the package that are no values of a
// script: an entry of one may refer to another scope.
func (h *qclH) inner() []types.Type {
	var out []types.Type
	pk := h.c.P.Pkg(relQcl)
	for _, n := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.Exported() || tn.IsAlias() {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if o, _, _ := types.LookupFieldOrMethod(t, true, pk.Pkg, "Call"); o == nil && !types.IsInterface(t) {
				out = append(out, t)
			}
		}
	}
	return out
}

// refer makes a scope refer to a variable of an outer one, by reading it
// there first.
func (h *qclH) refer(ip *T, name string) bool {
	ref := h.handler("ref")
	if ref == nil {
		return false
	}
	s0 := h.st.Load(h.stk, h.stkT)
	args, ok := h.argsFor(ref, ip, ai.Str(name))
	if !ok {
		return false
	}
	var next *S
	n := 0
	for _, o := range h.m.CallValue(ref, args, h.st) {
		if o.Panic == nil {
			next = o.St
			n++
		}
	}
	if n != 1 {
		h.m.Check(h.st, false, fnPos(ref), "reading a variable of an outer scope has %d results", n)
		return false
	}
	h.st = next
	h.st.Store(h.stk, s0, h.stkT)
	return true
}

// unchanged checks that all scopes but one hold the name as before, and every
// scope holds another name as before.
func (h *qclH) unchanged(st, before *S, scopes []*T, b binding, vals []*T, name, what string, except int) {
	for i, ip := range scopes {
		has, v := h.varOf(st, ip, other)
		_, w := h.varOf(before, ip, other)
		h.m.Check(st, has > 0 && st.Same(v, w), fnPos(nil), "%s: another variable is changed", what)
		if i == except || b.k[i] != 1 {
			continue
		}
		has, v = h.varOf(st, ip, name)
		h.m.Check(st, has > 0 && st.Same(v, vals[i]), fnPos(nil), "%s: the variable of another scope is changed", what)
	}
}

type compound struct {
	mark, op string
	unary    bool
}

func checkCompound(c *Ctx) {
	c.Rule("x op= y pops y, stores op(old value, y) in the scope that holds x and pushes it; ++ and -- do so without operand; the operators are the ones of Q01; a name the scope does not know is an error and an error of the operator leaves the variable")
	for _, cp := range []compound{{"adda", "Add", false}, {"suba", "Sub", false}, {"mula", "Mul", false}, {"quoa", "Quo", false}, {"moda", "Mod", false}, {"inc", "Inc", true}, {"dec", "Dec", true}} {
		h := newQclH(c)
		if h == nil {
			return
		}
		fn := h.handler(cp.mark)
		if fn == nil {
			continue
		}
		cases := 0
		for _, n := range []int{1, 2, 3, 4} {
			for _, b := range bindings(n) {
				for _, name := range []string{"x", "_x"} {
					if name == "_x" && (b.k[0] != 1 || b.refers()) {
						continue
					}
					h.reset()
					what := "the handler of " + cp.mark + " (" + b.String() + ")"
					y := ai.NewSym("operand", ai.TAny)
					if cp.unary {
						h.operands()
					} else {
						h.operands(y)
					}
					scopes, vals := h.chain(b, name)
					if scopes == nil {
						continue
					}
					cases++
					before := h.st.Clone()
					home := b.owner(0)
					if b.k[0] == 0 {
						home = -1
					}
					var want *T
					if home >= 0 {
						if cp.unary {
							want = ai.App("op:"+cp.op, ai.TAny, vals[home])
						} else {
							want = ai.App("op:"+cp.op, ai.TAny, vals[home], y)
						}
					}
					normal := 0
					for _, o := range h.call(fn, scopes[0], ai.Str(name)) {
						st := o.St
						failed := o.Panic != nil || o.Ret != nil && st.Eval(st.IsNil(o.Ret)) < 0
						if failed {
							opErr := o.Panic != nil && o.Panic.K == ai.KApp && o.Panic.Name == "op-error"
							h.m.Check(st, home < 0 || opErr, fnPos(fn), "%s: fails though the variable exists", what)
							h.unchanged(st, before, scopes, b, vals, name, what+", failing", -1)
							continue
						}
						normal++
						if !h.m.Check(st, home >= 0, fnPos(fn), "%s: a variable the scope does not know is assigned", what) {
							continue
						}
						has, v := h.varOf(st, scopes[home], name)
						h.m.Check(st, has > 0 && st.Same(v, want), fnPos(fn), "%s: the variable becomes %s instead of %s", what, v, want)
						if h.kept(st, fnPos(fn), what, 1) {
							h.m.Check(st, st.Same(h.top(st, 0), want), fnPos(fn), "%s: its value is %s instead of %s", what, h.top(st, 0), want)
						}
						h.unchanged(st, before, scopes, b, vals, name, what, home)
					}
					if home >= 0 {
						h.m.Check(h.st, normal > 0, fnPos(fn), "%s: never succeeds", what)
					}
					h.absorb("compound assignment")
				}
			}
		}
		c.Case("mark %s: %d bindings", cp.mark, cases)
	}
}

func checkScopes(c *Ctx) {
	c.Rule("a reference yields the value of the innermost scope that holds the name (a name with '_' only the current one), else the builtin of that name, else it is an error; an assignment changes the variable the scope holds or has referred to, is an error when an outer scope holds it, and else makes a variable of the current scope; no other variable changes")
	h := newQclH(c)
	if h == nil {
		return
	}
	ref, assign, massign := h.handler("ref"), h.handler("assign"), h.handler("massign")
	if ref == nil || assign == nil || massign == nil {
		return
	}
	refs, assigns, multi := 0, 0, 0
	for _, n := range []int{1, 2, 3, 4} {
		for _, b := range bindings(n) {
			for _, name := range []string{"x", "_x", "len"} {
				private := name[0] == '_'
				if private && b.refers() {
					continue
				}
				home := b.owner(0)
				if private && home > 0 {
					home = -1
				}
				// reading
				h.reset()
				scopes, vals := h.chain(b, name)
				if scopes == nil {
					continue
				}
				refs++
				what := "reading " + name + " (" + b.String() + ")"
				before := h.st.Clone()
				var want *T
				if home >= 0 {
					want = vals[home]
				} else if has, v := h.base.MapHas(h.table, ai.Str(name), h.mt); has > 0 {
					want = v
				}
				normal := 0
				for _, o := range h.call(ref, scopes[0], ai.Str(name)) {
					st := o.St
					if o.Panic != nil {
						h.m.Check(st, want == nil, fnPos(ref), "%s: fails though it is defined", what)
						continue
					}
					normal++
					if !h.m.Check(st, want != nil, fnPos(ref), "%s: an undefined name is not an error", what) {
						continue
					}
					if h.kept(st, fnPos(ref), what, 1) {
						h.m.Check(st, st.Same(h.top(st, 0), want), fnPos(ref), "%s: yields %s instead of %s", what, h.top(st, 0), want)
					}
					h.unchanged(st, before, scopes, b, vals, name, what, -1)
					// a read variable can be assigned afterwards
					if b.owner(0) > 0 && !private {
						h.assigns(st, assign, scopes, vals, b, name, "assigning to "+name+" after reading it ("+b.String()+")", home)
					}
				}
				if want != nil {
					h.m.Check(h.st, normal > 0, fnPos(ref), "%s: never succeeds", what)
				}
				h.absorb("reference")
				// assigning
				h.reset()
				scopes, vals = h.chain(b, name)
				assigns++
				target := 0
				if b.k[0] == 2 {
					target = b.owner(0)
				} else if b.k[0] == 0 && b.owner(0) > 0 && !private {
					target = -1
				}
				h.assigns(h.st, assign, scopes, vals, b, name, "assigning to "+name+" ("+b.String()+")", target)
				h.absorb("assignment")
			}
			if n <= 3 {
				multi += h.multi(massign, b)
				h.absorb("assignment to several variables")
				if n == 1 {
					h.notList(massign, b)
					h.absorb("assignment to several variables")
				}
			}
		}
	}
	h.exported()
	h.absorb("Var, SetVar, Vars, Unset")
	c.Case("%d references, %d assignments, %d multiple assignments", refs, assigns, multi)
}

// assigns checks an assignment; target -1: it must fail.
func (h *qclH) assigns(st0 *S, fn *T, scopes, vals []*T, b binding, name, what string, target int) {
	v := ai.NewSym("value", ai.TAny)
	h.st = st0
	h.operands2(v)
	before := h.st.Clone()
	normal := 0
	for _, o := range h.call(fn, scopes[0], ai.Str(name)) {
		st := o.St
		if o.Panic != nil || o.Ret != nil && st.Eval(st.IsNil(o.Ret)) < 0 {
			h.m.Check(st, target < 0, fnPos(fn), "%s: fails", what)
			h.unchanged(st, before, scopes, b, vals, name, what+", failing", -1)
			continue
		}
		normal++
		if !h.m.Check(st, target >= 0, fnPos(fn), "%s: a variable of an outer scope that was not referred to is not rejected", what) {
			continue
		}
		has, w := h.varOf(st, scopes[target], name)
		h.m.Check(st, has > 0 && st.Same(w, v), fnPos(fn), "%s: the variable becomes %s instead of the assigned value", what, w)
		h.m.Check(st, st.EQ(h.depth(st), ai.Int(h.nops)) && st.Same(h.top(st, 0), v), fnPos(fn), "%s: the assignment does not have the assigned value", what)
		h.unchanged(st, before, scopes, b, vals, name, what, target)
	}
	if target >= 0 {
		h.m.Check(h.st, normal > 0, fnPos(fn), "%s: never succeeds", what)
	}
}

// operands2 pushes a value on the current stack.
func (h *qclH) operands2(v *T) {
	h.pushV(h.st, v)
	h.nops, _ = ai.IntVal(h.depth(h.st))
}

// notList: a value that is no list cannot be assigned to several variables.
func (h *qclH) notList(fn *T, b binding) {
	mt := types.NewMap(ai.TInt, ai.TAny)
	for cnt := 1; cnt <= 3; cnt++ {
		for kind, v := range map[string]*T{
			"an int": intBox(int64(cnt)), "a string": ai.Iface(ai.TString, ai.Str("abc"[:cnt]), ai.TAny),
			"nil": ai.Nil(ai.TAny), "a map": ai.Iface(mt, ai.NewObj("map", mt), ai.TAny),
		} {
			h.reset()
			var ops []*T
			for _, nm := range []string{"x", "p", "q"}[:cnt] {
				ops = append(ops, ai.Iface(ai.TString, ai.Str(nm), ai.TAny))
			}
			ops = append(ops, intBox(int64(cnt-1)), v)
			h.operands(ops...)
			scopes, old := h.chain(b, "x")
			if scopes == nil {
				return
			}
			for _, ip := range scopes {
				h.noVar(ip, "p")
				h.noVar(ip, "q")
			}
			what := desc("assigning %s to %d variables", kind, cnt)
			before := h.st.Clone()
			for _, o := range h.call(fn, scopes[0], nil) {
				failed := o.Panic != nil || o.Ret != nil && o.St.Eval(o.St.IsNil(o.Ret)) < 0
				if h.m.Check(o.St, failed, fnPos(fn), "%s: is not rejected", what) {
					h.unchanged(o.St, before, scopes, b, old, "x", what+", failing", -1)
				}
			}
		}
	}
}

// multi checks an assignment to up to three variables, the first one bound
// as given.
func (h *qclH) multi(fn *T, b binding) int {
	n := 0
	for cnt := 1; cnt <= 3; cnt++ {
		for got := 0; got <= 4; got++ {
			n++
			h.reset()
			var ops []*T
			names := []string{"x", "p", "q"}[:cnt]
			for _, nm := range names {
				ops = append(ops, ai.Iface(ai.TString, ai.Str(nm), ai.TAny))
			}
			ops = append(ops, ai.Iface(ai.TInt, ai.Int(int64(cnt-1)), ai.TAny))
			arr := ai.NewObj("values", types.NewArray(ai.TAny, int64(got)))
			var vals []*T
			for i := 0; i < got; i++ {
				v := ai.NewSym(desc("v%d", i), ai.TAny)
				vals = append(vals, v)
				h.st.Store(ai.IndexAddr(arr, ai.Int(int64(i)), types.NewPointer(ai.TAny)), v, ai.TAny)
			}
			sl := types.NewSlice(ai.TAny)
			list := ai.Iface(sl, ai.SliceT(sl, arr, ai.Int(0), ai.Int(int64(got)), ai.Int(int64(got))), ai.TAny)
			ops = append(ops, list)
			h.operands(ops...)
			scopes, old := h.chain(b, "x")
			if scopes == nil {
				return n
			}
			for _, ip := range scopes {
				h.noVar(ip, "p")
				h.noVar(ip, "q")
			}
			what := desc("assigning %d values to %d variables (the first %s)", got, cnt, b)
			target := 0
			if b.k[0] == 2 {
				target = b.owner(0)
			} else if b.k[0] == 0 && b.owner(0) > 0 {
				target = -1
			}
			if got != cnt {
				target = -1
			}
			before := h.st.Clone()
			normal := 0
			for _, o := range h.call(fn, scopes[0], nil) {
				st := o.St
				if o.Panic != nil || o.Ret != nil && st.Eval(st.IsNil(o.Ret)) < 0 {
					h.m.Check(st, target < 0, fnPos(fn), "%s: fails", what)
					h.unchanged(st, before, scopes, b, old, "x", what+", failing", -1)
					continue
				}
				normal++
				if !h.m.Check(st, target >= 0, fnPos(fn), "%s: is not rejected", what) {
					continue
				}
				for i, nm := range names {
					ip := scopes[0]
					if i == 0 {
						ip = scopes[target]
					}
					has, w := h.varOf(st, ip, nm)
					h.m.Check(st, has > 0 && st.Same(w, vals[i]), fnPos(fn), "%s: variable %d becomes %s", what, i+1, w)
				}
				if h.kept(st, fnPos(fn), what, 1) {
					h.m.Check(st, st.Same(h.top(st, 0), list), fnPos(fn), "%s: its value is %s", what, h.top(st, 0))
				}
				h.unchanged(st, before, scopes, b, old, "x", what, target)
			}
			if target >= 0 {
				h.m.Check(h.st, normal > 0, fnPos(fn), "%s: never succeeds", what)
			}
		}
	}
	return n
}

// exported checks the access to variables from Go.
func (h *qclH) exported() {
	meth := func(name string) *T {
		fn := ai.MethodOf(h.c.P.Prog, types.NewPointer(h.ipT), h.c.P.Pkg(relQcl).Pkg, name)
		if fn == nil {
			h.c.Missing("method " + name + " of Interpreter")
			return nil
		}
		return ai.FuncT(fn)
	}
	for _, bound := range []bool{true, false} {
		h.reset()
		ip := h.scope("scope", nil)
		v := ai.NewSym("old", ai.TAny)
		if bound {
			h.setVar(ip, "x", v)
		} else {
			h.noVar(ip, "x")
		}
		if fn := meth("Var"); fn != nil {
			for _, o := range h.m.CallValue(fn, []*T{ip, ai.Str("x")}, h.st.Clone()) {
				ok := o.Panic == nil && (o.St.Eval(o.Ret.Args[1]) > 0) == bound && (!bound || o.St.Same(o.Ret.Args[0], v)) && o.St.Eval(o.Ret.Args[1]) != 0
				h.m.Check(o.St, ok, fnPos(fn), "Var does not yield the variable of that name")
			}
		}
		if fn := meth("SetVar"); fn != nil {
			nv := ai.NewSym("new", ai.TAny)
			for _, o := range h.m.CallValue(fn, []*T{ip, ai.Str("x"), nv}, h.st.Clone()) {
				has, w := h.varOf(o.St, ip, "x")
				h.m.Check(o.St, o.Panic == nil && has > 0 && o.St.Same(w, nv), fnPos(fn), "SetVar does not set the variable")
			}
		}
		if fn := meth("Vars"); fn != nil {
			for _, o := range h.m.CallValue(fn, []*T{ip}, h.st.Clone()) {
				h.m.Check(o.St, o.Panic == nil && o.St.Same(o.Ret, h.vars(o.St, ip)), fnPos(fn), "Vars does not yield the variables")
			}
		}
		if fn := meth("Unset"); fn != nil {
			h.setVar(ip, other, v)
			for _, o := range h.m.CallValue(fn, []*T{ip, ai.Str("x")}, h.st.Clone()) {
				has, _ := h.varOf(o.St, ip, "x")
				has2, w := h.varOf(o.St, ip, other)
				h.m.Check(o.St, o.Panic == nil && has < 0 && has2 > 0 && o.St.Same(w, v), fnPos(fn), "Unset does not remove exactly the variable")
			}
		}
	}
	// removing a name that refers to an outer variable
	if fn := meth("Unset"); fn != nil {
		for _, n := range []int{1, 2, 3} {
			for _, b := range bindings(n) {
				h.reset()
				scopes, vals := h.chain(b, "x")
				if scopes == nil {
					continue
				}
				before := h.st.Clone()
				for _, o := range h.m.CallValue(fn, []*T{scopes[0], ai.Str("x")}, h.st) {
					has, _ := h.varOf(o.St, scopes[0], "x")
					h.m.Check(o.St, o.Panic == nil && has < 0, fnPos(fn), "Unset (%s) does not remove the variable", b)
					h.unchanged(o.St, before, scopes, b, vals, "x", "Unset ("+b.String()+")", 0)
				}
			}
		}
	}
}
