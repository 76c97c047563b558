package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// constVal returns the value of an exported integer constant.
func constVal(c *Ctx, rel, name string) int64 {
	pk := c.P.Pkg(rel)
	if pk != nil {
		if nc, ok := pk.Members[name].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(constant.ToInt(nc.Value.Value)); ok {
				return v
			}
		}
	}
	panic("constant " + rel + "." + name + " is missing")
}

func globalVal(c *Ctx, st *S, rel, name string) *T {
	pk := c.P.Pkg(rel)
	if pk != nil {
		if g, ok := pk.Members[name].(*ssa.Global); ok {
			return st.Load(ai.GlobalT(g), g.Type().(*types.Pointer).Elem())
		}
	}
	panic("variable " + rel + "." + name + " is missing")
}

// single prepares the ghost of a grammar with one child tried at most once.
func (h *matchH) single(st *S, child *T) {
	startGhost(st)
	st.Ghost["count"] = ai.Int(0)
	st.Ghost["tries"] = ai.Int(0)
	st.Ghost["okN"] = ai.Int(0)
	h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
		h.m.Check(st, st.Same(recv, child), pos, "%s: something other than the operand is matched (%s)", h.what, recv)
		h.m.Check(st, st.EQ(at, ai.Int(0)), pos, "%s: the operand is not tried at the current position", h.what)
		h.m.Check(st, st.EQ(st.Ghost["tries"], ai.Int(0)), pos, "%s: the operand is tried more than once", h.what)
		st.Ghost["tries"] = ai.AddK(st.Ghost["tries"], 1)
		return ""
	}
	h.onOK = func(st *S, role string, n1 *T) {
		st.Ghost["okN"] = n1
		st.Ghost["count"] = ai.Int(1)
	}
	h.onFail = func(st *S, role string, n1, err *T) {
		st.Ghost["failed"] = ai.Bool(true)
		st.Ghost["failN"] = n1
		st.Ghost["failErr"] = err
	}
}

// each runs Match and hands every non-aborted outcome to f.
func (h *matchH) each(st *S, g *T, min int, f func(st *S, n, err *T)) {
	paths := 0
	for _, o := range h.match(st, g) {
		if h.propagated(o) {
			continue
		}
		if !h.m.Check(o.St, o.Panic == nil, token.NoPos, "%s: the match aborts by itself", h.what) {
			continue
		}
		paths++
		n, err := ret2(o)
		f(o.St, n, err)
	}
	h.c.Must(paths >= min, token.NoPos, h.what, "no matching path")
	h.c.Case("%s: %d return paths, %d child events", h.what, paths, h.events)
}

func checkLookahead(c *Ctx) {
	for _, ctor := range []string{"Peek", "Not"} {
		h := newMatchH(c, ctor)
		st := c.P.Base("tpl")
		child := h.grammar(st, "G")
		g, st := h.construct(st, ctor, child)
		if g == nil {
			c.Absorb(ctor, h.m)
			continue
		}
		h.single(st, child)
		h.each(st, g, 2, func(st *S, n, err *T) {
			h.m.Check(st, st.EQ(st.Ghost["tries"], ai.Int(1)), token.NoPos, "%s: the operand is not tried", ctor)
			h.m.Check(st, st.EQ(n, ai.Int(0)), token.NoPos, "%s: the lookahead consumes %s tokens", ctor, n)
			if gTrue(st, "failed") == (ctor == "Not") {
				h.m.Check(st, errNil(st, err), token.NoPos, "%s: the lookahead fails although its condition holds", ctor)
			} else {
				h.m.Check(st, errNotNil(st, err), token.NoPos, "%s: the lookahead succeeds although its condition does not hold", ctor)
			}
		})
		c.Absorb(ctor, h.m)
	}
}

// forwards checks that a grammar behaves as its operand.
func (h *matchH) forwards(st *S, g *T) {
	h.each(st, g, 2, func(st *S, n, err *T) {
		h.m.Check(st, st.EQ(st.Ghost["tries"], ai.Int(1)), token.NoPos, "%s: the operand is not tried", h.what)
		h.sameVerdict(st, n, err)
	})
}

func (h *matchH) sameVerdict(st *S, n, err *T) {
	if gTrue(st, "failed") {
		h.m.Check(st, errNotNil(st, err) && st.Same(err, st.Ghost["failErr"]), token.NoPos, "%s: the error of the operand is not reported", h.what)
		h.m.Check(st, st.EQ(n, st.Ghost["failN"]), token.NoPos, "%s: the failure position of the operand is not reported", h.what)
		return
	}
	h.m.Check(st, errNil(st, err), token.NoPos, "%s: fails although the operand matches", h.what)
	h.m.Check(st, st.EQ(n, st.Ghost["okN"]), token.NoPos, "%s: %s tokens are reported instead of what the operand consumed", h.what, n)
}

func checkTerminals(c *Ctx) {
	tINT, tFLOAT := constVal(c, "tpl", "INT"), constVal(c, "tpl", "FLOAT")
	kindOf := func(h *matchH, st *S) *T {
		arr, lo, _, _ := st.SliceParts(h.src)
		tok := st.Load(ai.IndexAddr(arr, lo, types.NewPointer(h.tokT)), h.tokT)
		i, ft := fieldIdx(h.tokT, "Kind")
		if i < 0 {
			panic("Token.Kind is missing")
		}
		return st.Field(tok, i, ft)
	}
	noChild := func(h *matchH) {
		h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
			h.m.Check(st, false, pos, "%s: a terminal matches another grammar", h.what)
			return ""
		}
		h.onOK = func(*S, string, *T) {}
		h.onFail = func(*S, string, *T, *T) {}
	}
	uintT := types.Typ[types.Uint]
	empty := func(h *matchH, st *S, yes bool) bool {
		_, _, n, _ := st.SliceParts(h.src)
		return st.Assume(ai.EQ0(ai.LinOf(n)), yes)
	}
	gr := func(name string, pre func(h *matchH, st *S, tok *T) (*T, bool), ok bool) {
		h := newMatchH(c, "Gr(token), "+name)
		noChild(h)
		st := c.P.Base("tpl")
		tok := ai.NewSym("tok", uintT)
		st.Assume(ai.GE0(ai.LinOf(tok)), true)
		t2, feasible := pre(h, st, tok)
		if !feasible {
			return
		}
		if t2 != nil {
			tok = t2
		}
		g, st := h.construct(st, "Gr", tok)
		if g == nil {
			c.Absorb("Gr", h.m)
			return
		}
		startGhost(st)
		st.Ghost["count"] = ai.Int(0)
		h.each(st, g, 1, func(st *S, n, err *T) {
			if ok {
				h.m.Check(st, errNil(st, err) && st.EQ(n, ai.Int(1)), token.NoPos, "%s: the token is not matched as exactly one token (n=%s err=%s)", h.what, n, err)
			} else {
				h.m.Check(st, errNotNil(st, err) && st.EQ(n, ai.Int(0)), token.NoPos, "%s: a wrong token or the end of the input is matched (n=%s err=%s)", h.what, n, err)
			}
		})
		c.Absorb("Gr", h.m)
	}
	gr("at the end of the input", func(h *matchH, st *S, tok *T) (*T, bool) { return nil, empty(h, st, true) }, false)
	gr("on a token of that kind", func(h *matchH, st *S, tok *T) (*T, bool) {
		return nil, empty(h, st, false) && st.Assume(st.Eq(kindOf(h, st), tok), true)
	}, true)
	gr("FLOAT on an INT", func(h *matchH, st *S, tok *T) (*T, bool) {
		return ai.Int(tFLOAT), empty(h, st, false) && st.Assume(st.Eq(kindOf(h, st), ai.Int(tINT)), true)
	}, true)
	gr("on another kind (wanted token is not FLOAT)", func(h *matchH, st *S, tok *T) (*T, bool) {
		return nil, empty(h, st, false) && st.Assume(st.Eq(kindOf(h, st), tok), false) && st.Assume(st.Eq(tok, ai.Int(tFLOAT)), false)
	}, false)
	gr("FLOAT on a token that is neither FLOAT nor INT", func(h *matchH, st *S, tok *T) (*T, bool) {
		k := kindOf(h, st)
		return ai.Int(tFLOAT), empty(h, st, false) && st.Assume(st.Eq(k, ai.Int(tFLOAT)), false) && st.Assume(st.Eq(k, ai.Int(tINT)), false)
	}, false)
	lit := func(name string, at string, emptyInput, ok bool) {
		h := newMatchH(c, at)
		noChild(h)
		st := c.P.Base("tpl")
		g := globalVal(c, st, "tpl", name)
		startGhost(st)
		st.Ghost["count"] = ai.Int(0)
		if name == "GrEOF" {
			empty(h, st, emptyInput)
		}
		h.each(st, g, 1, func(st *S, n, err *T) {
			h.m.Check(st, st.EQ(n, ai.Int(0)), token.NoPos, "%s consumes %s tokens", at, n)
			if ok {
				h.m.Check(st, errNil(st, err), token.NoPos, "%s fails", at)
			} else {
				h.m.Check(st, errNotNil(st, err), token.NoPos, "%s succeeds", at)
			}
		})
		c.Absorb(name, h.m)
	}
	lit("GrEOF", "EOF at the end of the input", true, true)
	lit("GrEOF", "EOF before the end of the input", false, false)
	lit("GrTrue", "the empty grammar 1", false, true)
	checkVar(c)
	// a named grammar is its operand
	{
		h := newMatchH(c, "a named grammar")
		st := c.P.Base("tpl")
		child := h.grammar(st, "G")
		g, st := h.construct(st, "Named", ai.NewSym("name", ai.TString), child)
		if g != nil {
			h.single(st, child)
			h.forwards(st, g)
		}
		c.Absorb("Named", h.m)
	}
}

func fieldIdx(t types.Type, name string) (int, types.Type) {
	st, _ := t.Underlying().(*types.Struct)
	if st == nil {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

func checkVar(c *Ctx) {
	h := newMatchH(c, "a variable that is not assigned")
	st := c.P.Base("tpl")
	v, st := h.construct(st, "Var", ai.NewSym("name", ai.TString))
	if v == nil {
		c.Absorb("Var", h.m)
		return
	}
	child, other := h.grammar(st, "G"), h.grammar(st, "G2")
	h.single(st, child)
	st0 := st.Clone()
	h.each(st0, v, 1, func(st *S, n, err *T) {
		h.m.Check(st, errNotNil(st, err) && st.EQ(n, ai.Int(0)) && st.EQ(st.Ghost["tries"], ai.Int(0)), token.NoPos, "%s does not fail", h.what)
	})
	h.what = "a variable"
	for _, o := range h.invoke(st, v, "Assign", child) {
		if !h.m.Check(o.St, o.Panic == nil && errNil(o.St, o.Ret), token.NoPos, "the first assignment of a variable fails") {
			continue
		}
		st := o.St
		h.what = "an assigned variable"
		h.forwards(st.Clone(), v)
		for _, o2 := range h.invoke(st, v, "Assign", other) {
			if !h.m.Check(o2.St, o2.Panic == nil && errNotNil(o2.St, o2.Ret), token.NoPos, "a variable is assigned twice without an error") {
				continue
			}
			h.what = "a variable after a rejected second assignment"
			h.forwards(o2.St, v)
		}
	}
	c.Absorb("Var", h.m)
}

// funcSym is a symbolic function value.
func funcSym(st *S, name string, t types.Type) *T {
	f := ai.NewSym(name, t)
	st.Assume(ai.App("isnil", ai.TBool, f), false)
	return f
}

func paramType(fn *ssa.Function, i int) types.Type { return fn.Signature.Params().At(i).Type() }

func checkActions(c *Ctx) {
	if fn := c.Func("tpl", "Action"); fn != nil {
		h := newMatchH(c, "action")
		st := c.P.Base("tpl")
		child := h.grammar(st, "G")
		act := funcSym(st, "act", paramType(fn, 1))
		g, st := h.construct(st, "Action", child, act)
		if g != nil {
			h.single(st, child)
			st.Ghost["acts"] = ai.Int(0)
			h.hook = func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.FnTerm != act {
					return nil, false
				}
				pos := ci.Pos()
				h.m.Check(st, gTrue1(st, "count") && !gTrue(st, "failed"), pos, "action: the action runs although its grammar has not matched")
				h.m.Check(st, st.EQ(st.Ghost["acts"], ai.Int(0)), pos, "action: the action runs more than once")
				if len(ci.Args) == 2 {
					arr, lo, n, _ := st.SliceParts(ci.Args[0])
					sarr, slo, _, _ := st.SliceParts(h.src)
					h.m.Check(st, arr == sarr && st.EQ(lo, slo) && st.EQ(n, st.Ghost["okN"]), pos, "action: the action does not get exactly the tokens its grammar matched (%s)", ci.Args[0])
					h.m.Check(st, st.Same(ci.Args[1], child), pos, "action: the action does not get the grammar it belongs to")
				}
				st.Ghost["acts"] = ai.AddK(st.Ghost["acts"], 1)
				sp := st.Clone()
				p := ai.NewSym("actPanic", ai.TAny)
				sp.Assume(ai.App("isnil", ai.TBool, p), false)
				sp.Ghost["childPanic"] = p
				return []ai.Outcome{{St: st}, {St: sp, Panic: p}}, true
			}
			h.each(st, g, 2, func(st *S, n, err *T) {
				want := int64(1)
				if gTrue(st, "failed") {
					want = 0
				}
				h.m.Check(st, st.EQ(st.Ghost["tries"], ai.Int(1)), token.NoPos, "action: the grammar is not tried")
				h.m.Check(st, st.EQ(st.Ghost["acts"], ai.Int(want)), token.NoPos, "action: the action ran %s times instead of %d", st.Ghost["acts"], want)
				h.sameVerdict(st, n, err)
			})
		}
		c.Absorb("Action", h.m)
	}
	if fn := c.Func("tpl", "Transaction"); fn != nil {
		h := newMatchH(c, "transaction")
		st := c.P.Base("tpl")
		child := h.grammar(st, "G")
		begin := funcSym(st, "begin", paramType(fn, 1))
		end := funcSym(st, "end", paramType(fn, 2))
		g, st := h.construct(st, "Transaction", child, begin, end)
		if g != nil {
			h.single(st, child)
			st.Ghost["begins"] = ai.Int(0)
			st.Ghost["ends"] = ai.Int(0)
			trans := ai.NewSym("trans", ai.TAny)
			h.hook = func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				pos := ci.Pos()
				switch {
				case ci.FnTerm == begin:
					h.m.Check(st, st.EQ(st.Ghost["begins"], ai.Int(0)) && st.EQ(st.Ghost["tries"], ai.Int(0)), pos, "transaction: it does not begin exactly once, before its grammar is tried")
					st.Ghost["begins"] = ai.AddK(st.Ghost["begins"], 1)
					return []ai.Outcome{{St: st, Ret: trans}}, true
				case ci.FnTerm == end:
					h.m.Check(st, st.EQ(st.Ghost["begins"], ai.Int(1)) && st.EQ(st.Ghost["tries"], ai.Int(1)) && st.EQ(st.Ghost["ends"], ai.Int(0)), pos, "transaction: it does not end exactly once, after its grammar was tried")
					h.m.Check(st, len(ci.Args) == 2 && st.Same(ci.Args[0], trans), pos, "transaction: the end does not get the value of the begin")
					if len(ci.Args) == 2 {
						if st.Ghost["childPanic"].K == ai.KNil {
							if gTrue(st, "failed") {
								h.m.Check(st, st.Same(ci.Args[1], st.Ghost["failErr"]), pos, "transaction: the end does not get the error of the grammar")
							} else {
								h.m.Check(st, errNil(st, ci.Args[1]), pos, "transaction: the end gets an error although the grammar matched")
							}
						} else {
							h.m.Check(st, errNotNil(st, ci.Args[1]), pos, "transaction: an aborted attempt ends as a success")
						}
					}
					st.Ghost["ends"] = ai.AddK(st.Ghost["ends"], 1)
					return []ai.Outcome{{St: st}}, true
				}
				return nil, false
			}
			h.each(st, g, 2, func(st *S, n, err *T) {
				h.m.Check(st, st.EQ(st.Ghost["tries"], ai.Int(1)) && st.EQ(st.Ghost["begins"], ai.Int(1)) && st.EQ(st.Ghost["ends"], ai.Int(1)), token.NoPos,
					"transaction: begin, grammar and end do not each happen exactly once (%s, %s, %s)", st.Ghost["begins"], st.Ghost["tries"], st.Ghost["ends"])
				h.sameVerdict(st, n, err)
			})
		}
		c.Absorb("Transaction", h.m)
	}
}

func gTrue1(st *S, k string) bool { return st.EQ(st.Ghost[k], ai.Int(1)) }

// checkLens verifies Len of the grammars without a match count.
func checkLens(c *Ctx) {
	type lc struct {
		what string
		mk   func(h *matchH, st *S) (g *T, want *T, st2 *S)
	}
	list := func(h *matchH) *T { return ai.NewSym("gs", types.NewSlice(h.gT)) }
	var inner *T
	cases := []lc{
		{"And", func(h *matchH, st *S) (*T, *T, *S) {
			gs := list(h)
			g, st := h.construct(st, "And", gs)
			return g, st.Len(gs), st
		}},
		{"Or", func(h *matchH, st *S) (*T, *T, *S) {
			gs := list(h)
			g, st := h.construct(st, "Or", gs)
			return g, st.Len(gs), st
		}},
		{"Gr", func(h *matchH, st *S) (*T, *T, *S) {
			g, st := h.construct(st, "Gr", ai.NewSym("tok", types.Typ[types.Uint]))
			return g, ai.Int(-1), st
		}},
		{"GrEOF", func(h *matchH, st *S) (*T, *T, *S) { return globalVal(c, st, "tpl", "GrEOF"), ai.Int(-1), st }},
		{"GrTrue", func(h *matchH, st *S) (*T, *T, *S) { return globalVal(c, st, "tpl", "GrTrue"), ai.Int(-1), st }},
		{"Peek", func(h *matchH, st *S) (*T, *T, *S) {
			g, st := h.construct(st, "Peek", h.grammar(st, "G"))
			return g, ai.Int(-1), st
		}},
		{"Not", func(h *matchH, st *S) (*T, *T, *S) {
			g, st := h.construct(st, "Not", h.grammar(st, "G"))
			return g, ai.Int(-1), st
		}},
	}
	for _, w := range []string{"Action", "Transaction"} {
		w := w
		cases = append(cases, lc{w, func(h *matchH, st *S) (*T, *T, *S) {
			fn := c.Func("tpl", w)
			if fn == nil {
				return nil, nil, st
			}
			args := []*T{h.grammar(st, "G")}
			for i := 1; i < fn.Signature.Params().Len(); i++ {
				args = append(args, funcSym(st, "f", paramType(fn, i)))
			}
			inner = ai.NewSym("len", ai.TInt)
			h.hook = func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.Method != nil && ci.Method.Name() == "Len" && ci.Recv == args[0] {
					return []ai.Outcome{{St: st, Ret: inner}}, true
				}
				return nil, false
			}
			g, st := h.construct(st, w, args...)
			return g, inner, st
		}})
	}
	for _, k := range cases {
		h := newMatchH(c, k.what)
		st := c.P.Base("tpl")
		g, want, st := k.mk(h, st)
		if g != nil {
			for _, o := range h.invoke(st, g, "Len") {
				h.m.Check(o.St, o.Panic == nil && o.Ret != nil && o.St.EQ(o.Ret, want), token.NoPos, "Len is %s instead of %s", o.Ret, want)
			}
		}
		c.Absorb(k.what, h.m)
	}
}

func init() {
	register("C06", "Abstract interpretation of the two lookahead combinators over an arbitrary operand: one attempt at the current position, zero tokens reported, verdict equal to (or the negation of) the operand's.", checkLookahead)
	register("C07", "Abstract interpretation of the terminal matchers over a complete case split of the input (empty; wanted kind; INT for FLOAT; anything else), of EOF and the empty grammar, and of variables and named grammars over an arbitrary operand.", checkTerminals)
	register("C08", "Abstract interpretation of actions and transactions over an arbitrary grammar whose match is an event with success, failure and abort outcomes; the callbacks are events checked for order, number and arguments.", checkActions)
}
