package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/sa/ai"
)

func init() {
	register("Q04", "the handlers that make a function, return, defer and recover and the call itself are interpreted together; the evaluation of the body and of the deferred expressions are events whose order, scope and effects are compared with the specification", checkCalls)
}

const relErr = "error"

func errType() types.Type { return types.Universe.Lookup(relErr).Type() }

// run plays a derivation that ends with a mark, on a state of its own.
func (h *qclH) run(st *S, ip *T, mark string, pick func(d deriv) bool, vals ...*T) (*S, []code, bool) {
	for _, d := range h.grammar().endingWith(mark, 1) {
		if pick != nil && !pick(d) {
			continue
		}
		old := h.st
		h.st = st
		codes, _, ok := h.play(d, ip, func(i int, _ string) *T { return vals[i] }, true)
		st, h.st = h.st, old
		return st, codes, ok
	}
	h.c.Missing("the mark " + mark + " in the grammar")
	return st, nil, false
}

// makeFn evaluates a function expression in a scope.
func (h *qclH) makeFn(d deriv, ip *T, names []string) (f *T, body *T, variadic, ok bool) {
	h.names = names
	defer func() { h.names = nil }()
	codes, _, k := h.play(d, ip, nil, true)
	if !k {
		return
	}
	if !h.m.Check(h.st, len(codes) == 1, token.NoPos, "%s: %d parts are captured", d.text, len(codes)) {
		return
	}
	if !h.kept(h.st, token.NoPos, d.text, h.nops+1) {
		return
	}
	if !codes[0].empty {
		body = codes[0].t
	}
	return h.top(h.st, 0), body, strings.Contains(d.text, "..."), true
}

// callee finds the method that calls a value.
func (h *qclH) callee(f *T) *T {
	t := h.st.KnownType(f)
	if t == nil {
		h.c.Missing("the type of a function")
		return nil
	}
	fn := ai.MethodOf(h.c.P.Prog, t, h.c.P.Pkg(relQcl).Pkg, "Call")
	if fn == nil {
		h.c.Missing("method Call of " + t.String())
		return nil
	}
	return ai.FuncT(fn)
}

// list makes a []interface{} of values.
func (h *qclH) list(st *S, vs ...*T) *T {
	sl := types.NewSlice(ai.TAny)
	if len(vs) == 0 {
		return ai.Nil(sl)
	}
	arr := ai.NewObj("args", types.NewArray(ai.TAny, int64(len(vs))))
	for i, v := range vs {
		st.Store(ai.IndexAddr(arr, ai.Int(int64(i)), types.NewPointer(ai.TAny)), v, ai.TAny)
	}
	n := ai.Int(int64(len(vs)))
	return ai.SliceT(sl, arr, ai.Int(0), n, n)
}

func (h *qclH) receiver(f *T) *T {
	if f.K == ai.KIface {
		return f.Args[0]
	}
	return f
}

// callSpec describes a call.
type callSpec struct {
	what     string
	def      *T // the scope the function was written in
	body     *T
	params   []string
	args     []*T
	variadic bool
	pass     []*T // the arguments given, if they differ
	plain    bool // no deferred expressions
	deep     bool // every combination of deferred expressions and outcomes
	others   []*T // scopes that are not the one of the call
	seen     int
}

func (cs *callSpec) fits() bool {
	n := len(cs.params)
	return len(cs.args) == n || cs.variadic && len(cs.args) >= n-1
}

// boundTo checks the variables of the scope of a call.
func (h *qclH) boundTo(st *S, cs *callSpec, p *T, pos token.Pos) {
	n := len(cs.params)
	for i, nm := range cs.params {
		has, v := h.varOf(st, p, nm)
		if !h.m.Check(st, has > 0, pos, "%s: the parameter %d is not bound", cs.what, i+1) {
			continue
		}
		if cs.variadic && i == n-1 {
			rest := cs.args[n-1:]
			ok := v.K == ai.KIface && types.Identical(v.Typ, types.NewSlice(ai.TAny))
			if ok {
				l := v.Args[0]
				ok = st.EQ(st.Len(l), ai.Int(int64(len(rest))))
				for k := range rest {
					ok = ok && st.Same(h.elem(st, l, ai.Int(int64(k))), rest[k])
				}
			}
			h.m.Check(st, ok, pos, "%s: the last parameter is bound to %s instead of the remaining arguments", cs.what, v)
			continue
		}
		if cs.args[i] == nil {
			st.Ghost["this"] = v
			continue
		}
		h.m.Check(st, st.Same(v, cs.args[i]), pos, "%s: the parameter %d is bound to %s", cs.what, i+1, v)
	}
	for _, nm := range []string{other, "x"} {
		has, _ := h.varOf(st, p, nm)
		h.m.Check(st, has < 0, pos, "%s: the scope of the call already holds another variable", cs.what)
	}
}

// onCall is the monitor of a call.
func (h *qclH) onCall(cs *callSpec) {
	g := h.grammar()
	docs, exprs := g.above("doc"), g.above("expr")
	returns := map[*T]bool{} // the panics by which return leaves a body
	h.onEval = func(st *S, p, rule, cd *T, pos token.Pos) []ai.Outcome {
		ph, _ := ai.StrVal(st.Ghost["phase"])
		rn, _ := ai.StrVal(rule)
		var outs []ai.Outcome
		fail := func(s *S, kind string) {
			v := ai.NewSym(kind, ai.TAny)
			if kind == "error" {
				v = ai.NewSym(kind, errType())
			}
			s.Assume(ai.App("isnil", ai.TBool, v), false)
			for r := range returns {
				s.Assume(s.Eq(v, r), false)
			}
			s.Ghost["pending"] = v
			if kind == "error" {
				outs = append(outs, ai.Outcome{St: s, Ret: v})
			} else {
				outs = append(outs, ai.Outcome{St: s, Panic: v})
			}
		}
		nilErr := ai.Nil(errType())
		if ph == "" {
			cs.seen++
			if !h.m.Check(st, st.Same(cd, cs.body), pos, "%s: something else than the body is evaluated", cs.what) {
				return nil
			}
			h.m.Check(st, docs[rn], pos, "%s: the body is evaluated as %q", cs.what, rn)
			fresh := p.K == ai.KObj
			for _, o := range cs.others {
				fresh = fresh && p != o && h.vars(st, p) != h.vars(st, o)
			}
			if prev := st.Ghost["calc"]; prev != nil {
				fresh = fresh && p != prev && h.vars(st, p) != st.Ghost["vars"]
			}
			if !h.m.Check(st, fresh, pos, "%s: the body is not evaluated in a new scope", cs.what) {
				return nil
			}
			h.m.Check(st, st.Same(h.get(st, p, "parent"), cs.def), pos, "%s: the new scope does not belong to the scope the function was written in", cs.what)
			h.m.Check(st, st.Same(h.get(st, p, "stk"), h.stk), pos, "%s: the new scope has another value stack", cs.what)
			h.m.Check(st, st.EQ(h.get(st, p, "base"), st.Len(st.Load(h.stk, h.stkT))), pos, "%s: the statements of the body can remove values that were on the stack before", cs.what)
			h.m.Check(st, st.Eval(st.IsNil(h.get(st, p, "ret"))) > 0 && st.Eval(st.IsNil(h.get(st, p, "recov"))) > 0 && st.Eval(st.IsNil(h.get(st, p, "defers"))) > 0, pos, "%s: the new scope is not empty", cs.what)
			h.boundTo(st, cs, p, pos)
			st.Ghost["calc"], st.Ghost["vars"] = p, h.vars(st, p)
			max := 1
			if cs.deep {
				max = 2
			}
			if cs.plain {
				max = 0
			}
			for nd := 0; nd <= max; nd++ {
				base := st.Clone()
				ok := true
				var codes [2]*T
				for i := 0; i < nd && ok; i++ {
					var cc []code
					base, cc, ok = h.run(base, p, "defer", nil)
					if ok = ok && len(cc) == 1; ok {
						codes[i] = cc[0].t
						base.Ghost[desc("defer%d", i)] = cc[0].t
					}
				}
				if !h.m.Check(base, ok, pos, "%s: an expression cannot be deferred", cs.what) {
					return nil
				}
				mk := func(res string) *S {
					s := base.Clone()
					h.pushV(s, ai.NewSym("junk", ai.TAny))
					h.pushV(s, ai.NewSym("junk", ai.TAny))
					s.Ghost["phase"] = ai.Str(desc("%d:", nd) + res)
					s.Ghost["pending"] = ai.Nil(ai.TAny)
					s.Ghost["result"] = ai.Nil(ai.TAny)
					return s
				}
				outs = append(outs, ai.Outcome{St: mk("end"), Ret: nilErr})
				for _, with := range []bool{true, false} {
					s := mk("return")
					v := ai.NewSym("result", ai.TAny)
					n := 0
					for _, d := range g.endingWith("return", 1) {
						has := len(d.ev) > 0 && d.ev[0].mark == ""
						if has != with {
							continue
						}
						old := h.st
						h.st = s.Clone()
						_, _, k := h.play(d, p, func(int, string) *T { return v }, false)
						s2 := h.st
						h.st = old
						fn := h.handler("return")
						if !k || fn == nil {
							return nil
						}
						args, _ := h.argsFor(fn, p, nil)
						for _, o := range h.m.CallValue(fn, args, s2) {
							if !h.m.Check(o.St, o.Panic != nil, pos, "%s: a return does not end the body", cs.what) {
								continue
							}
							n++
							returns[o.Panic] = true
							if with {
								o.St.Ghost["result"] = v
							}
							outs = append(outs, o)
						}
					}
					h.m.Check(s, n > 0, pos, "%s: return (with a value: %v) has no result", cs.what, with)
				}
				fail(mk("error"), "error")
				fail(mk("panic"), "panic")
			}
			return outs
		}
		// a deferred expression
		k := strings.Count(ph, ";")
		nd := int(ph[0] - '0')
		i := nd - 1 - k
		if !h.m.Check(st, i >= 0 && !strings.HasSuffix(ph, "=fails") && st.Ghost[desc("defer%d", i)] != nil && st.Same(cd, st.Ghost[desc("defer%d", i)]), pos, "%s: after %q something is evaluated that is not the next deferred expression", cs.what, ph) {
			return nil
		}
		h.m.Check(st, exprs[rn], pos, "%s: a deferred expression is evaluated as %q", cs.what, rn)
		h.m.Check(st, st.Same(p, st.Ghost["calc"]), pos, "%s: a deferred expression is not evaluated in the scope of its function", cs.what)
		mk := func(res string) *S {
			s := st.Clone()
			h.pushV(s, ai.NewSym("junk", ai.TAny))
			s.Ghost["phase"] = ai.Str(ph + desc(";%d=", i) + res)
			return s
		}
		outs = append(outs, ai.Outcome{St: mk("ok"), Ret: nilErr})
		fail(mk("fails"), "error")
		fail(mk("fails"), "panic")
		// the deferred expression calls a function that recovers
		s := mk("recovers")
		pend := s.Ghost["pending"]
		old := h.st
		h.st = s
		in := h.scope("deferred", p)
		h.st = old
		s, _, ok := h.run(s, in, "recover", nil)
		if !h.m.Check(s, ok, pos, "%s: recover fails", cs.what) {
			return outs
		}
		v := h.top(s, 0)
		if strings.Contains(ph, ":error") {
			// a body that fails with an error has not panicked yet
			h.m.Check(s, s.Eval(s.IsNil(v)) > 0, pos, "%s: recover yields %s without a panic", cs.what, v)
		} else {
			h.m.Check(s, s.Same(v, pend) || s.Eval(s.IsNil(v)) > 0 && s.Eval(s.IsNil(pend)) > 0, pos, "%s: after %q recover yields %s instead of %s", cs.what, ph, v, pend)
			s.Ghost["pending"] = ai.Nil(ai.TAny)
		}
		outs = append(outs, ai.Outcome{St: s, Ret: nilErr})
		return outs
	}
}

// call runs a call of f and checks how it ends; it yields a state after a
// successful call.
func (h *qclH) checkCall(f *T, cs *callSpec) *S {
	if h.st.KnownType(f) == nil {
		h.m.Check(h.st, false, token.NoPos, "%s: the value is %s, not a function", cs.what, f)
		return nil
	}
	fn := h.callee(f)
	if fn == nil {
		return nil
	}
	h.m.Key = func(st *S) string {
		if p := st.Ghost["phase"]; p != nil {
			return p.String()
		}
		return ""
	}
	defer func() { h.m.Key = nil }()
	h.st.Ghost["phase"] = ai.Str("")
	d0 := h.depth(h.st)
	h.onCall(cs)
	cs.seen = 0
	fits := cs.fits()
	pass := cs.args
	if cs.pass != nil {
		pass = cs.pass
	}
	var after *S
	pos := fnPos(fn)
	outs := h.m.CallValue(fn, []*T{h.receiver(f), h.list(h.st, pass...)}, h.st.Clone())
	h.onEval = nil
	ends := 0
	for _, o := range outs {
		st := o.St
		ph, _ := ai.StrVal(st.Ghost["phase"])
		if !fits {
			h.m.Check(st, o.Panic != nil && ph == "", pos, "%s: a wrong number of arguments is not rejected", cs.what)
			continue
		}
		if cs.body == nil {
			h.m.Check(st, o.Panic == nil && ph == "" && st.Eval(st.IsNil(o.Ret)) > 0, pos, "%s: a function without statements does not yield nil", cs.what)
			after = st
			continue
		}
		if !h.m.Check(st, ph != "", pos, "%s: ends without evaluating the body", cs.what) {
			continue
		}
		ends++
		nd := int(ph[0] - '0')
		for _, s := range cs.others {
			for i, nm := range cs.params {
				has, _ := h.varOf(st, s, nm)
				h.m.Check(st, has < 0, pos, "%s: the parameter %d becomes a variable of another scope", cs.what, i+1)
			}
		}
		pend := st.Ghost["pending"]
		if strings.HasSuffix(ph, "=fails") {
			h.m.Check(st, o.Panic != nil && samePanic(st, o.Panic, pend), pos, "%s: after %q the failure of the deferred expression is not passed on", cs.what, ph)
			continue
		}
		h.m.Check(st, strings.Count(ph, ";") == nd, pos, "%s: after %q deferred expressions are left", cs.what, ph)
		s := st.Load(h.stk, h.stkT)
		h.m.Check(st, st.EQ(ai.Sub(st.Len(s), h.n0), d0) && h.keptBelow(st), pos, "%s: after %q the call does not leave the stack as it was", cs.what, ph)
		if st.Eval(st.IsNil(pend)) <= 0 {
			h.m.Check(st, o.Panic != nil && samePanic(st, o.Panic, pend), pos, "%s: after %q the failure of the body is not passed on", cs.what, ph)
			continue
		}
		if !h.m.Check(st, o.Panic == nil, pos, "%s: after %q the call fails", cs.what, ph) {
			continue
		}
		r := st.Ghost["result"]
		h.m.Check(st, st.Same(o.Ret, r) || st.Eval(st.IsNil(o.Ret)) > 0 && st.Eval(st.IsNil(r)) > 0, pos, "%s: after %q the call yields %s instead of %s", cs.what, ph, o.Ret, r)
		if after == nil {
			after = st
		}
	}
	if fits && cs.body != nil {
		h.m.Check(h.st, ends > 0 && cs.seen > 0, pos, "%s: the body is never evaluated", cs.what)
	} else {
		h.m.Check(h.st, len(outs) > 0 && cs.seen == 0, pos, "%s: something is evaluated", cs.what)
	}
	return after
}

func (h *qclH) keptBelow(st *S) bool {
	s := st.Clone()
	if s.Assume(ai.GE0(ai.LinOf(h.k)), true) {
		return s.Same(h.elem(s, s.Load(h.stk, h.stkT), h.k), h.vk)
	}
	return true
}

func samePanic(st *S, p, v *T) bool {
	if st.Same(p, v) {
		return true
	}
	return p.K == ai.KIface && st.Same(p.Args[0], v)
}

func checkCalls(c *Ctx) {
	c.Rule("a call evaluates the body once, in a new scope inside the one the function was written in, that holds exactly the parameters bound to the arguments in order (the last one of a variadic function to the list of the remaining ones); a wrong number of arguments is an error and nothing is evaluated; each deferred expression is evaluated once in that scope, last in first out, however the body ends, until one of them fails; the value of the call is that of the executed return, else nil; an error or panic is passed on unless a function called by a deferred expression recovers it, which yields the panic value once; the stack is left as it was")
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	ds := h.grammar().endingWith("fn", 3)
	if len(ds) == 0 {
		c.Missing("the mark fn in the grammar")
	}
	forms, calls := 0, 0
	for _, d := range ds {
		np := 0
		for _, e := range d.ev {
			if e.mark == "name" {
				np++
			}
		}
		if strings.Contains(d.text, "...") && np == 0 {
			continue // no parameter to take the arguments
		}
		forms++
		for na := 0; na <= 4; na++ {
			h.reset()
			outer := h.scope("outer", nil)
			ip := h.scope("scope", outer)
			names := []string{"a", "b", "c"}[:np]
			for _, s := range []*T{outer, ip} {
				for _, nm := range names {
					h.noVar(s, nm)
				}
			}
			f, body, variadic, ok := h.makeFn(d, ip, names)
			if !ok {
				h.absorb("functions")
				continue
			}
			calls++
			var args []*T
			for i := 0; i < na; i++ {
				args = append(args, ai.NewSym(desc("arg%d", i), ai.TAny))
			}
			cs := &callSpec{what: desc("%s called with %d arguments", d.text, na), def: ip, body: body, params: names, args: args, variadic: variadic, others: []*T{outer, ip}, deep: np == 0}
			after := h.checkCall(f, cs)
			h.absorb("calls")
			if after != nil && np == 1 && na == 1 && body != nil {
				// a second call
				h.st = after
				cs.what += " again"
				h.m = c.Machine()
				h.m.RuntimePanics = true
				h.m.Hook = h.hook
				h.checkCall(f, cs)
				h.absorb("calls")
			}
		}
	}
	c.Case("%d forms of functions, %d calls", forms, calls)
}
