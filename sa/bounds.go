package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// pointsInside checks a match error made by the code under analysis: it has a
// context and its index is a position of its tokens (the end included).
func pointsInside(c *Ctx, m *ai.Machine, st *S, what string, err *T) bool {
	dt := st.KnownType(err)
	if dt == nil {
		return false
	}
	n := namedOf(dt)
	if n == nil || n.Obj().Name() != "MatchError" {
		return false
	}
	x := err
	if x.K == ai.KIface {
		x = ai.Unbox(err, dt)
	}
	src, at, ctx := getField(st, x, n, "Src"), getField(st, x, n, "IdxErr"), getField(st, x, n, "Ctx")
	ln := st.Len(src)
	m.Check(st, st.GE(at, ai.Int(0)) && st.GE(ln, at), token.NoPos, "%s: the error it creates points outside its tokens (index %s of %s)", what, at, ln)
	m.Check(st, st.Eval(st.IsNil(ctx)) <= 0, token.NoPos, "%s: the error it creates has no context to render it with", what)
	return true
}

// checkBounds: every grammar reports 0 <= n <= len(src).
func checkBounds(c *Ctx) {
	type bc struct {
		name string
		mk   func(h *matchH, st *S) (*T, *S)
	}
	gsOf := func(h *matchH) *T { return ai.NewSym("gs", types.NewSlice(h.gT)) }
	ctor := func(name string, args ...func(h *matchH, st *S) *T) bc {
		return bc{name, func(h *matchH, st *S) (*T, *S) {
			var as []*T
			for _, a := range args {
				as = append(as, a(h, st))
			}
			return h.construct(st, name, as...)
		}}
	}
	G := func(n string) func(h *matchH, st *S) *T {
		return func(h *matchH, st *S) *T { return h.grammar(st, n) }
	}
	list := func(h *matchH, st *S) *T { return gsOf(h) }
	fnArg := func(ct string, i int) func(h *matchH, st *S) *T {
		return func(h *matchH, st *S) *T {
			fn := c.Func("tpl", ct)
			return funcSym(st, "f", paramType(fn, i))
		}
	}
	glob := func(name string) bc {
		return bc{name, func(h *matchH, st *S) (*T, *S) { return globalVal(c, st, "tpl", name), st }}
	}
	cases := []bc{
		ctor("And", list), ctor("Or", list),
		ctor("Repeat0", G("G")), ctor("Repeat1", G("G")), ctor("Repeat01", G("G")),
		ctor("List", G("A"), G("B")), ctor("List0", G("A"), G("B")),
		ctor("Peek", G("G")), ctor("Not", G("G")),
		ctor("Gr", func(h *matchH, st *S) *T { return ai.NewSym("tok", types.Typ[types.Uint]) }),
		glob("GrEOF"), glob("GrTrue"),
		ctor("Named", func(h *matchH, st *S) *T { return ai.NewSym("name", ai.TString) }, G("G")),
		ctor("Action", G("G"), fnArg("Action", 1)),
		ctor("Transaction", G("G"), fnArg("Transaction", 1), fnArg("Transaction", 2)),
		{"Var", func(h *matchH, st *S) (*T, *S) {
			v, st := h.construct(st, "Var", ai.NewSym("name", ai.TString))
			if v == nil {
				return nil, st
			}
			return v, st
		}},
		{"assigned Var", func(h *matchH, st *S) (*T, *S) {
			v, st := h.construct(st, "Var", ai.NewSym("name", ai.TString))
			if v == nil {
				return nil, st
			}
			for _, o := range h.invoke(st, v, "Assign", h.grammar(st, "G")) {
				if o.Panic == nil && errNil(o.St, o.Ret) {
					return v, o.St
				}
			}
			return nil, st
		}},
	}
	for _, cs := range cases {
		h := newMatchH(c, cs.name)
		h.nilMarks = cs.name == "And"
		st := c.P.Base("tpl")
		g, st := cs.mk(h, st)
		if g == nil {
			h.m.Undecide("%s cannot be constructed", cs.name)
			c.Absorb(cs.name, h.m)
			continue
		}
		startGhost(st)
		if cs.name == "And" {
			st.Ghost["nilSeen"] = ai.Bool(false)
		}
		h.onCall = func(st *S, recv, at *T, pos token.Pos) string { return "" }
		h.onOK = func(*S, string, *T) {}
		h.onFail = func(*S, string, *T, *T) {}
		h.hook = func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.FnTerm == nil {
				return nil, false
			}
			if ci.Sig != nil && ci.Sig.Results().Len() == 1 {
				return []ai.Outcome{{St: st, Ret: ai.NewSym("trans", ai.TAny)}}, true
			}
			return []ai.Outcome{{St: st}}, true
		}
		_, _, total, _ := st.SliceParts(h.src)
		paths, errs := 0, 0
		for _, o := range h.match(st, g) {
			if cp := o.St.Ghost["childPanic"]; cp.K != ai.KNil && o.Panic == cp {
				continue
			}
			paths++
			if o.Panic != nil {
				if pointsInside(c, h.m, o.St, cs.name, o.Panic) {
					errs++
				}
				continue
			}
			n, err := ret2(o)
			h.m.Check(o.St, o.St.GE(n, ai.Int(0)) && o.St.GE(total, n), token.NoPos, "%s: the reported count or failure position %s is not between 0 and the number of tokens", cs.name, n)
			if pointsInside(c, h.m, o.St, cs.name, err) {
				errs++
			}
		}
		c.Must(paths > 0, token.NoPos, cs.name, "no matching path")
		c.Case("%s: %d paths, %d of them with an error made here", cs.name, paths, errs)
		c.Absorb(cs.name, h.m)
	}
}

// checkErrorText: rendering a match error never panics.
func checkErrorText(c *Ctx) {
	meT := c.Type("tpl", "MatchError")
	fn := c.Method("tpl", "MatchError", "Error")
	tT := c.Type("tpl", "Tokener")
	cT := c.Type("tpl", "Context")
	tokT := c.Type("tpl", "Token")
	if meT == nil || fn == nil || tT == nil || cT == nil || tokT == nil {
		return
	}
	for _, inner := range []bool{false, true} {
		m := c.Machine()
		st := c.P.Base("tpl")
		srcT := types.NewSlice(tokT)
		e := ai.NewObj("matchError", meT)
		st.Store(e, ai.Zero(meT), meT)
		doc := ai.NewSym("doc", srcT)
		at := ai.NewSym("at", ai.TInt)
		_, _, n, cp := st.SliceParts(doc)
		st.Assume(ai.GE0(ai.LinOf(n)), true)
		st.Assume(ai.GE0(ai.LinOf(at)), true)
		st.Assume(ai.GE0(ai.LinOf(ai.Sub(n, at))), true)
		ctx := ai.NewSym("ctx", cT)
		st.Assume(ai.App("isnil", ai.TBool, ctx), false)
		g := ai.NewSym("grammar", c.Type("tpl", "Grammar"))
		st.Assume(ai.App("isnil", ai.TBool, g), false)
		setField(st, e, meT, "Src", doc)
		setField(st, e, meT, "IdxErr", at)
		setField(st, e, meT, "Ctx", ctx)
		setField(st, e, meT, "Grammar", g)
		if inner {
			err := ai.NewSym("inner", ai.TError)
			st.Assume(ai.App("isnil", ai.TBool, err), false)
			setField(st, e, meT, "Err", err)
		}
		scn := ai.NewSym("scanner", tT)
		st.Assume(ai.App("isnil", ai.TBool, scn), false)
		tsT := c.Type("tpl", "TokenSource")
		ts := ai.NewSym("source", tsT)
		fi, fft := fieldIdx(tsT, "File")
		si, sft := fieldIdx(tsT, "Src")
		if fi < 0 || si < 0 {
			panic("TokenSource has other fields")
		}
		file, text := st.Field(ts, fi, fft), st.Field(ts, si, sft)
		st.Assume(ai.App("isnil", ai.TBool, file), false)
		size := st.Len(text)
		pi, _ := fieldIdx(tokT, "Pos")
		arr, lo, _, _ := st.SliceParts(doc)
		type off struct{ idx, v *T }
		// positions grow along the tokens, the past-end token included
		offsetOf := func(st *S, p *T) *T {
			v := ai.App("offset", ai.TInt, p)
			st.Assume(ai.GE0(ai.LinOf(v)), true)
			st.Assume(ai.GE0(ai.LinOf(ai.Sub(size, v))), true)
			return v
		}
		idxOf := func(p *T) *T {
			if p.K == ai.KApp && p.Name == "load" {
				a := p.Args[0]
				if a.K == ai.KFieldAddr && a.Idx == pi && a.Args[0].K == ai.KIndexAddr && a.Args[0].Args[0] == arr {
					return ai.Sub(a.Args[0].Args[1], lo)
				}
			}
			return nil
		}
		var seen []off
		m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Method != nil && ci.Recv == ctx && ci.Method.Name() == "Tokener" {
				return []ai.Outcome{{St: st, Ret: scn}}, true
			}
			if ci.Method != nil && ci.Recv == scn {
				if ci.Method.Name() == "Source" {
					return []ai.Outcome{{St: st, Ret: ts}}, true
				}
				return []ai.Outcome{{St: st, Ret: ai.NewSym("lit", ci.Sig.Results().At(0).Type())}}, true
			}
			if ci.Method != nil && ci.Recv == g {
				return []ai.Outcome{{St: st, Ret: ai.FreshVal(st, "code", ci.Sig.Results().At(0).Type())}}, true
			}
			if ci.Fn != nil && ci.Fn.String() == "(*go/token.File).Offset" && len(ci.Args) == 2 {
				p := ci.Args[1]
				v := offsetOf(st, p)
				i := idxOf(p)
				if i != nil {
					for _, o := range seen {
						if st.GE(i, o.idx) {
							st.Assume(ai.GE0(ai.LinOf(ai.Sub(v, o.v))), true)
						} else if st.GE(o.idx, i) {
							st.Assume(ai.GE0(ai.LinOf(ai.Sub(o.v, v))), true)
						}
					}
					seen = append(seen, off{i, v})
				}
				return []ai.Outcome{{St: st, Ret: v}}, true
			}
			return nil, false
		}
		m.OnRuntimePanic = func(m *ai.Machine, st *S, in ssa.Instruction, what string) {
			m.Check(st, false, in.Pos(), "rendering the error may panic: %s (%s)", in, what)
		}
		total := 0
		empty := st.Clone()
		for k, s := range []*S{st, empty} {
			if k == 0 {
				if !s.Assume(ai.GE0(ai.LinOf(ai.AddK(n, -1))), true) {
					continue
				}
				// the end-of-file token is kept behind the tokens
				s.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(cp, n), -1))), true)
			} else if !s.Assume(ai.EQ0(ai.LinOf(n)), true) {
				continue
			}
			seen = nil
			for _, o := range m.Run(fn, []*T{e}, nil, s) {
				total++
				m.Check(o.St, o.Panic == nil, fn.Pos(), "rendering the error panics")
			}
		}
		c.Must(total > 0, fn.Pos(), "MatchError.Error", "it never returns")
		c.Case("MatchError.Error with any tokens, index and source (inner error: %v): %d return paths", inner, total)
		c.Absorb("MatchError.Error", m)
	}
}

func init() {
	register("C12", "Abstract interpretation of the match of every grammar constructor over arbitrary operands, with the interval of the reported count and the index of created errors as obligations; and of the rendering of a match error over arbitrary tokens, error index and source text, with every slice and index expression on the way as an obligation.", func(c *Ctx) {
		checkBounds(c)
		checkErrorText(c)
		checkRuns(c, "C12")
		c.Assume = append(c.Assume, "token positions grow along a token slice and lie inside the source; a non-empty token slice is followed by one more token in its array (C11); rendering of the grammar does not panic")
	})
}
