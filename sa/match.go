package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// T is an abstract value.
type T = ai.Term

// S is an abstract state.
type S = ai.State

// matchH interprets a Match method with symbolic children.
type matchH struct {
	c        *Ctx
	m        *ai.Machine
	what     string
	gT, cT   types.Type // Grammar, Context
	tokT     types.Type
	srcT     types.Type
	src, ctx *T
	serial   int
	mod      map[string]bool
	// spec callbacks; they run on the state of the event
	onCall   func(st *S, recv *T, at *T, pos token.Pos) (role string)
	onOK     func(st *S, role string, n1 *T)
	onFail   func(st *S, role string, n1, err *T)
	forkFail func(st *S, role string, n1 *T) []*S // optional case split of a failing child
	backEdge func(st *S, hdr *ssa.BasicBlock)
	hook     func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool)
	events   int
	progress bool
	nilMarks bool // children may be nil
}

func newMatchH(c *Ctx, what string) *matchH {
	h := &matchH{c: c, m: c.Machine(), what: what}
	h.gT = c.Type("tpl", "Grammar")
	h.cT = c.Type("tpl", "Context")
	h.tokT = c.Type("tpl", "Token")
	if h.gT == nil || h.cT == nil || h.tokT == nil {
		panic("tpl API types are missing")
	}
	h.srcT = types.NewSlice(h.tokT)
	h.src = ai.NewSym("src", h.srcT)
	h.ctx = ai.NewSym("ctx", h.cT)
	h.mod = matchMod(c)
	h.m.Hook = h.handle
	h.m.OnRuntimePanic = func(m *ai.Machine, st *S, in ssa.Instruction, what string) {
		m.Check(st, false, in.Pos(), "%s: possible run-time panic: %s (%s)", h.what, in, what)
	}
	h.m.BackEdge = func(m *ai.Machine, st *S, hdr *ssa.BasicBlock) {
		if kn := hdrKey(hdr); st.Ghost[kn] != nil {
			if m.Stable() {
				m.Check(st, st.GE(st.Ghost["calls"], ai.AddK(st.Ghost[kn], 1)), hdr.Instrs[0].Pos(),
					"%s: a loop may repeat without trying a grammar", h.what)
			}
			delete(st.Ghost, kn)
		}
		if h.backEdge != nil {
			h.backEdge(st, hdr)
		}
	}
	h.m.AtHeader = func(m *ai.Machine, st *S, hdr *ssa.BasicBlock) {
		if n, ok := st.Ghost["calls"]; ok && h.progress {
			st.Ghost[hdrKey(hdr)] = n
		}
	}
	return h
}

func hdrKey(b *ssa.BasicBlock) string { return fmt.Sprintf("hdr:%s.%d", b.Parent(), b.Index) }

// progressed records that an element was completed with n tokens.
func (h *matchH) progressed(st *S, n *T) {
	if !h.progress {
		return
	}
	if st.EQ(st.Ghost["count"], ai.Int(0)) {
		st.Ghost["free"] = ai.Bool(true) // the first one is not a repetition yet
		return
	}
	st.Ghost["free"] = ai.Bool(false)
	st.Ghost["prog"] = n
}

func (h *matchH) mayRepeat(st *S, pos token.Pos) {
	if !h.progress {
		return
	}
	st.Ghost["calls"] = ai.AddK(st.Ghost["calls"], 1)
	h.m.Check(st, gTrue(st, "free") || st.GE(st.Ghost["prog"], ai.Int(1)), pos, "%s: the repetition goes on after a match that consumed no token", h.what)
}

// matchMod computes the fields that Match methods of the package may change.
func matchMod(c *Ctx) map[string]bool {
	mod := map[string]bool{}
	pk := c.P.Pkg("tpl")
	g, _ := c.P.Type("tpl", "Grammar").Underlying().(*types.Interface)
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != pk {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						mod[ai.FieldRegion(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)] = true
					}
				case ssa.CallInstruction:
					walk(in.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, mem := range pk.Members {
		if tn, ok := mem.(*ssa.Type); ok {
			pt := types.NewPointer(tn.Type())
			if g != nil && types.Implements(pt, g) {
				walk(ai.MethodOf(c.P.Prog, pt, pk.Pkg, "Match"))
			}
		}
	}
	return mod
}

// grammar makes a symbolic non-nil grammar.
func (h *matchH) grammar(st *S, name string) *T {
	g := ai.NewSym(name, h.gT)
	st.Assume(ai.App("isnil", ai.TBool, g), false)
	return g
}

func (h *matchH) pos0() token.Pos { return token.NoPos }

// handle intercepts child Match calls.
func (h *matchH) handle(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if h.hook != nil {
		if outs, ok := h.hook(st, ci); ok {
			return outs, true
		}
	}
	if ci.Method == nil || ci.Recv == nil {
		return nil, false
	}
	if ci.Method.Name() != "Match" || !types.Identical(ci.Method.Type().(*types.Signature).Recv().Type(), h.gT) {
		if ci.Method.Name() == "Len" {
			return nil, false
		}
		return nil, false
	}
	h.events++
	pos := ci.Pos()
	arr, lo, n, _ := st.SliceParts(ci.Args[0])
	sarr, slo, sn, _ := st.SliceParts(h.src)
	at := ai.Sub(lo, slo)
	m.Check(st, (arr == sarr || arr.K == ai.KNil) && st.EQ(ai.Add(at, n), sn), pos,
		"%s: a child is given tokens that are not the rest of the input from some position (given %s)", h.what, ci.Args[0])
	m.Check(st, st.Same(ci.Args[1], h.ctx), pos, "%s: a child is given another context", h.what)
	if v := st.Eval(st.IsNil(ci.Recv)); v > 0 || v == 0 && h.nilMarks {
		m.Check(st, false, pos, "%s: a nil child grammar may be matched", h.what)
	} else if v == 0 {
		st.Assume(ai.App("isnil", ai.TBool, ci.Recv), false) // operands are grammars
	}
	role := h.onCall(st, ci.Recv, at, pos)
	st.HavocRegions(func(k string) bool { return h.mod[k] }, func(r *T) bool { return r.K == ai.KObj && r.Birth > h.serial })
	n1 := ai.NewSym("n1", ai.TInt)
	st.Assume(ai.GE0(ai.LinOf(n1)), true)
	st.Assume(ai.GE0(ai.LinOf(ai.Sub(n, n1))), true)
	sf, sp := st.Clone(), st.Clone()
	var outs []ai.Outcome
	// success
	h.onOK(st, role, n1)
	outs = append(outs, ai.Outcome{St: st, Ret: ai.Tuple(n1, ai.Nil(ai.TError))})
	// failure
	err := ai.NewSym("childErr", ai.TError)
	sf.Assume(ai.App("isnil", ai.TBool, err), false)
	fs := []*S{sf}
	if h.forkFail != nil {
		fs = h.forkFail(sf, role, n1)
	}
	for _, s := range fs {
		h.onFail(s, role, n1, err)
		outs = append(outs, ai.Outcome{St: s, Ret: ai.Tuple(n1, err)})
	}
	// abort
	p := ai.NewSym("childPanic", ai.TAny)
	sp.Assume(ai.App("isnil", ai.TBool, p), false)
	sp.Ghost["childPanic"] = p
	outs = append(outs, ai.Outcome{St: sp, Panic: p})
	return outs, true
}

// construct runs an exported constructor.
func (h *matchH) construct(st *S, name string, args ...*T) (*T, *S) {
	fn := h.c.Func("tpl", name)
	if fn == nil {
		return nil, st
	}
	outs := h.m.Run(fn, args, nil, st)
	if len(outs) != 1 || outs[0].Panic != nil || outs[0].Ret == nil {
		h.m.Undecide("constructor %s has %d outcomes", name, len(outs))
		return nil, st
	}
	return outs[0].Ret, outs[0].St
}

// match invokes g.Match(src, ctx).
func (h *matchH) match(st *S, g *T) []ai.Outcome {
	h.serial = ai.Serial()
	return h.invoke(st, g, "Match", h.src, h.ctx)
}

func (h *matchH) invoke(st *S, g *T, name string, args ...*T) []ai.Outcome {
	return invokeMethod(h.m, st, g, h.gT, name, args...)
}

// invokeMethod calls a method of an interface or concrete value.
func invokeMethod(m *ai.Machine, st *S, g *T, static types.Type, name string, args ...*T) []ai.Outcome {
	dt := st.KnownType(g)
	recv := g
	if dt == nil {
		dt = g.Typ
		if g.K == ai.KObj || dt != nil && !types.IsInterface(dt) {
			// a concrete pointer
		} else {
			m.Undecide("the dynamic type of the receiver of %s is unknown: %s", name, g)
			return nil
		}
	} else {
		recv = ai.Unbox(g, dt)
	}
	var pkg *types.Package
	if n := namedOf(dt); n != nil {
		pkg = n.Obj().Pkg()
	}
	fn := ai.MethodOf(m.Prog, dt, pkg, name)
	if fn == nil {
		m.Undecide("%s has no method %s", dt, name)
		return nil
	}
	return m.Run(fn, append([]*T{recv}, args...), nil, st)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (h *matchH) funcPos(o ai.Outcome) token.Pos { return token.NoPos }

// verdict helpers
func errNil(st *S, err *T) bool    { return st.Eval(st.IsNil(err)) > 0 }
func errNotNil(st *S, err *T) bool { return st.Eval(st.IsNil(err)) < 0 }

func ret2(o ai.Outcome) (n, err *T) {
	if o.Ret != nil && o.Ret.K == ai.KTuple && len(o.Ret.Args) == 2 {
		return o.Ret.Args[0], o.Ret.Args[1]
	}
	return nil, nil
}

// startGhost initialises the common ghost state.
func startGhost(st *S) {
	st.Ghost["pos"] = ai.Int(0)
	st.Ghost["failed"] = ai.Bool(false)
	st.Ghost["failN"] = ai.Int(0)
	st.Ghost["failErr"] = ai.Nil(ai.TError)
	st.Ghost["childPanic"] = ai.Nil(ai.TAny)
}

func gTrue(st *S, k string) bool { v, ok := ai.BoolVal(st.Ghost[k]); return ok && v }

// propagated checks that a child's abort leaves the method unchanged.
func (h *matchH) propagated(o ai.Outcome) bool {
	cp := o.St.Ghost["childPanic"]
	if cp.K != ai.KNil {
		h.m.Check(o.St, o.Panic != nil && o.Panic == cp, token.NoPos, "%s: a fail-fast abort of a child is swallowed or replaced", h.what)
		return true
	}
	return false
}

// ---- sequence

func (h *matchH) elemAt(st *S, gs, i *T) *T {
	arr, lo, _, _ := st.SliceParts(gs)
	pt := types.NewPointer(h.gT)
	return st.Load(ai.IndexAddr(arr, ai.Add(lo, i), pt), h.gT)
}

// skipNil advances the ghost position over fail-fast marks.
func (h *matchH) skipNil(st *S, gs *T) {
	_, _, n, _ := st.SliceParts(gs)
	for k := 0; k < 8; k++ {
		i := st.Ghost["next"]
		if !st.GE(n, ai.AddK(i, 1)) {
			return
		}
		if st.Eval(st.IsNil(h.elemAt(st, gs, i))) <= 0 {
			return
		}
		st.Ghost["next"] = ai.AddK(i, 1)
		st.Ghost["ff"] = ai.Bool(true)
	}
}

func checkAnd(c *Ctx, failfast bool) {
	h := newMatchH(c, "sequence")
	h.nilMarks = true
	st := c.P.Base("tpl")
	gs := ai.NewSym("gs", types.NewSlice(h.gT))
	g, st := h.construct(st, "And", gs)
	if g == nil {
		c.Absorb("And", h.m)
		return
	}
	startGhost(st)
	st.Ghost["next"] = ai.Int(0)
	st.Ghost["ff"] = ai.Bool(false)
	_, _, ngs, _ := st.SliceParts(gs)
	h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
		h.skipNil(st, gs)
		i := st.Ghost["next"]
		h.m.Check(st, !gTrue(st, "failed"), pos, "sequence: an element is tried after an earlier element failed")
		h.m.Check(st, st.EQ(at, st.Ghost["pos"]), pos, "sequence: an element is not tried where the previous one ended (at %s, expected %s)", at, st.Ghost["pos"])
		h.m.Check(st, st.GE(ngs, ai.AddK(i, 1)) && st.Same(recv, h.elemAt(st, gs, i)), pos,
			"sequence: elements are not tried one after another in order (tried %s, expected element %s)", recv, i)
		return ""
	}
	h.onOK = func(st *S, role string, n1 *T) {
		st.Ghost["pos"] = ai.Add(st.Ghost["pos"], n1)
		st.Ghost["next"] = ai.AddK(st.Ghost["next"], 1)
	}
	h.onFail = func(st *S, role string, n1, err *T) {
		st.Ghost["failed"] = ai.Bool(true)
		st.Ghost["failN"] = ai.Add(st.Ghost["pos"], n1)
		st.Ghost["failErr"] = err
	}
	h.backEdge = func(st *S, hdr *ssa.BasicBlock) { h.skipNil(st, gs) }
	nok, nfail, npanic := 0, 0, 0
	for _, o := range h.match(st, g) {
		st := o.St
		if h.propagated(o) {
			continue
		}
		h.skipNil(st, gs)
		if o.Panic != nil {
			npanic++
			h.m.Check(st, gTrue(st, "failed") && gTrue(st, "ff"), token.NoPos,
				"sequence: the match is aborted although no element after a fail-fast mark failed")
			et := ai.TError.Underlying().(*types.Interface)
			dt := st.KnownType(o.Panic)
			h.m.Check(st, dt != nil && types.Implements(dt, et), token.NoPos, "sequence: the fail-fast abort does not carry an error")
			continue
		}
		n, err := ret2(o)
		if gTrue(st, "failed") {
			nfail++
			h.m.Check(st, !gTrue(st, "ff"), token.NoPos, "sequence: an element after a fail-fast mark failed and the match is not aborted")
			h.m.Check(st, errNotNil(st, err) && st.Same(err, st.Ghost["failErr"]), token.NoPos, "sequence: the error of the failing element is not the error of the sequence (%s)", err)
			h.m.Check(st, st.EQ(n, st.Ghost["failN"]), token.NoPos, "sequence: the reported failure position %s is not where the element failed (%s)", n, st.Ghost["failN"])
			continue
		}
		nok++
		h.m.Check(st, errNil(st, err), token.NoPos, "sequence: every element matched but the sequence fails")
		h.m.Check(st, st.EQ(st.Ghost["next"], ngs), token.NoPos, "sequence: the sequence succeeds before every element was matched (%s of %s)", st.Ghost["next"], ngs)
		h.m.Check(st, st.EQ(n, st.Ghost["pos"]), token.NoPos, "sequence: %s tokens are reported as consumed instead of the sum over the elements (%s)", n, st.Ghost["pos"])
	}
	c.Must(nok > 0 && nfail > 0 && npanic > 0, token.NoPos, "tpl.And", "the method never succeeds, never fails or never aborts (%d/%d/%d paths)", nok, nfail, npanic)
	c.Case("And(g1..gk), k arbitrary, nil marks anywhere: %d success, %d failure, %d abort paths, %d child events", nok, nfail, npanic, h.events)
	c.Absorb("And", h.m)
}

// ---- choice

func checkOr(c *Ctx) {
	h := newMatchH(c, "choice")
	st := c.P.Base("tpl")
	gs := ai.NewSym("gs", types.NewSlice(h.gT))
	g, st := h.construct(st, "Or", gs)
	if g == nil {
		c.Absorb("Or", h.m)
		return
	}
	startGhost(st)
	st.Ghost["next"] = ai.Int(0)
	st.Ghost["ok"] = ai.Bool(false)
	st.Ghost["okN"] = ai.Int(0)
	st.Ghost["max"] = ai.Int(0)
	st.Ghost["uniq"] = ai.Bool(false)
	_, _, ngs, _ := st.SliceParts(gs)
	h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
		i := st.Ghost["next"]
		h.m.Check(st, !gTrue(st, "ok"), pos, "choice: another alternative is tried after one matched")
		h.m.Check(st, st.EQ(at, ai.Int(0)), pos, "choice: an alternative is not tried at the start of the input")
		e := h.elemAt(st, gs, i)
		h.m.Check(st, st.GE(ngs, ai.AddK(i, 1)) && st.Same(recv, e), pos, "choice: alternatives are not tried in order (tried %s, expected number %s)", recv, i)
		return ""
	}
	h.onOK = func(st *S, role string, n1 *T) {
		st.Ghost["ok"] = ai.Bool(true)
		st.Ghost["okN"] = n1
		st.Ghost["next"] = ai.AddK(st.Ghost["next"], 1)
	}
	h.forkFail = func(st *S, role string, n1 *T) []*S {
		var out []*S
		max := st.Ghost["max"]
		gt, eq, lt := st, st.Clone(), st.Clone()
		if gt.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(n1, max), -1))), true) {
			gt.Ghost["max"] = n1
			gt.Ghost["uniq"] = ai.Bool(true)
			gt.Ghost["role"] = ai.Str("gt")
			out = append(out, gt)
		}
		if eq.Assume(ai.EQ0(ai.LinOf(ai.Sub(n1, max))), true) {
			eq.Ghost["uniq"] = ai.Bool(false)
			eq.Ghost["role"] = ai.Str("eq")
			out = append(out, eq)
		}
		if lt.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(max, n1), -1))), true) {
			lt.Ghost["role"] = ai.Str("lt")
			out = append(out, lt)
		}
		return out
	}
	h.onFail = func(st *S, role string, n1, err *T) {
		if r, _ := ai.StrVal(st.Ghost["role"]); r == "gt" {
			st.Ghost["failErr"] = err
		}
		delete(st.Ghost, "role")
		st.Ghost["failed"] = ai.Bool(true)
		st.Ghost["next"] = ai.AddK(st.Ghost["next"], 1)
	}
	nok, nfail := 0, 0
	for _, o := range h.match(st, g) {
		st := o.St
		if h.propagated(o) {
			continue
		}
		if !h.m.Check(st, o.Panic == nil, token.NoPos, "choice: the choice aborts by itself") {
			continue
		}
		n, err := ret2(o)
		if gTrue(st, "ok") {
			nok++
			h.m.Check(st, errNil(st, err), token.NoPos, "choice: an alternative matched but the choice fails")
			h.m.Check(st, st.EQ(n, st.Ghost["okN"]), token.NoPos, "choice: %s tokens are reported instead of what the matching alternative consumed (%s)", n, st.Ghost["okN"])
			continue
		}
		nfail++
		h.m.Check(st, errNotNil(st, err), token.NoPos, "choice: no alternative matched but the choice succeeds")
		h.m.Check(st, st.EQ(st.Ghost["next"], ngs), token.NoPos, "choice: the choice fails before every alternative was tried")
		h.m.Check(st, st.EQ(n, st.Ghost["max"]), token.NoPos, "choice: the failure position %s is not the furthest one reached by an alternative (%s)", n, st.Ghost["max"])
		if gTrue(st, "uniq") {
			h.m.Check(st, st.Same(err, st.Ghost["failErr"]), token.NoPos, "choice: the error is not the one of the only alternative that got furthest")
		}
	}
	c.Must(nok > 0 && nfail > 0, token.NoPos, "tpl.Or", "the method never succeeds or never fails")
	c.Case("Or(g1..gk), k arbitrary: %d success, %d failure paths, %d child events", nok, nfail, h.events)
	c.Absorb("Or", h.m)
}

// ---- repetition

// repCheck verifies *G, +G and ?G.
func repCheck(c *Ctx, ctor string, min int, once bool, what func(*matchH, string) bool) {
	h := newMatchH(c, ctor)
	st := c.P.Base("tpl")
	child := h.grammar(st, "G")
	g, st := h.construct(st, ctor, child)
	if g == nil {
		c.Absorb(ctor, h.m)
		return
	}
	startGhost(st)
	st.Ghost["count"] = ai.Int(0)
	st.Ghost["lastEmpty"] = ai.Bool(false)
	verd := what(h, "verdict")
	h.progress = what(h, "progress")
	if h.progress {
		st.Ghost["prog"] = ai.Int(0)
		st.Ghost["free"] = ai.Bool(true)
		st.Ghost["calls"] = ai.Int(0)
	}
	h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
		h.mayRepeat(st, pos)
		if verd {
			h.m.Check(st, st.Same(recv, child), pos, "%s: something other than the repeated grammar is matched", ctor)
			h.m.Check(st, !gTrue(st, "failed"), pos, "%s: the grammar is tried again after it failed", ctor)
			h.m.Check(st, st.EQ(at, st.Ghost["pos"]), pos, "%s: the grammar is not tried where the previous match ended (at %s, expected %s)", ctor, at, st.Ghost["pos"])
			if once {
				h.m.Check(st, st.EQ(st.Ghost["count"], ai.Int(0)), pos, "%s: the grammar is matched more than once", ctor)
			}
		}
		return ""
	}
	h.onOK = func(st *S, role string, n1 *T) {
		h.progressed(st, n1)
		st.Ghost["pos"] = ai.Add(st.Ghost["pos"], n1)
		st.Ghost["count"] = ai.AddK(st.Ghost["count"], 1)
		st.Ghost["lastN"] = n1
	}
	h.onFail = func(st *S, role string, n1, err *T) {
		st.Ghost["failed"] = ai.Bool(true)
		st.Ghost["failN"] = n1
		st.Ghost["failErr"] = err
	}
	st.Ghost["lastN"] = ai.Int(0)
	paths := 0
	for _, o := range h.match(st, g) {
		st := o.St
		if h.propagated(o) {
			continue
		}
		if !h.m.Check(st, o.Panic == nil, token.NoPos, "%s: the repetition aborts by itself", ctor) {
			continue
		}
		paths++
		n, err := ret2(o)
		if verd {
			below := min > 0 && st.EQ(st.Ghost["count"], ai.Int(0))
			if below {
				h.m.Check(st, gTrue(st, "failed"), token.NoPos, "%s: the grammar is never tried", ctor)
				h.m.Check(st, errNotNil(st, err) && st.Same(err, st.Ghost["failErr"]), token.NoPos, "%s: the first match failed but its error is not reported", ctor)
				h.m.Check(st, st.EQ(n, st.Ghost["failN"]), token.NoPos, "%s: the failure position is not that of the grammar", ctor)
			} else {
				h.m.Check(st, errNil(st, err), token.NoPos, "%s: the repetition fails although enough matches were found", ctor)
				h.m.Check(st, st.EQ(n, st.Ghost["pos"]), token.NoPos, "%s: %s tokens are reported as consumed instead of %s", ctor, n, st.Ghost["pos"])
				if !once {
					h.m.Check(st, gTrue(st, "failed") || st.GE(st.Ghost["count"], ai.Int(1)) && st.EQ(st.Ghost["lastN"], ai.Int(0)), token.NoPos,
						"%s: the repetition stops although the last match succeeded and consumed tokens", ctor)
				} else {
					h.m.Check(st, gTrue(st, "failed") || st.EQ(st.Ghost["count"], ai.Int(1)), token.NoPos, "%s: the grammar is never tried", ctor)
				}
			}
		}
		if what(h, "count") {
			for _, lo := range h.invoke(st, g, "Len") {
				h.m.Check(lo.St, lo.Panic == nil && lo.Ret != nil && lo.St.EQ(lo.Ret, lo.St.Ghost["count"]), token.NoPos,
					"%s: Len reports %s after %s matches", ctor, lo.Ret, lo.St.Ghost["count"])
			}
		}
	}
	c.Must(paths >= 2, token.NoPos, "tpl."+ctor, "no matching path")
	c.Case("%s(G), G arbitrary: %d return paths, %d child events", ctor, paths, h.events)
	c.Absorb(ctor, h.m)
}

// listCheck verifies G1 % G2 and G1 %= G2.
func listCheck(c *Ctx, ctor string, list0 bool, what func(*matchH, string) bool) {
	h := newMatchH(c, ctor)
	st := c.P.Base("tpl")
	a, b := h.grammar(st, "A"), h.grammar(st, "B")
	st.Assume(st.Eq(a, b), false)
	g, st := h.construct(st, ctor, a, b)
	if g == nil {
		c.Absorb(ctor, h.m)
		return
	}
	startGhost(st)
	st.Ghost["count"] = ai.Int(0)
	st.Ghost["tent"] = ai.Int(0)     // tokens of a separator not yet followed by an element
	st.Ghost["sep"] = ai.Bool(false) // a separator was matched
	st.Ghost["lastN"] = ai.Int(0)    // tokens of the last separator+element
	st.Ghost["lastEmpty"] = ai.Bool(false)
	verd := what(h, "verdict")
	h.progress = what(h, "progress")
	if h.progress {
		st.Ghost["prog"] = ai.Int(0)
		st.Ghost["free"] = ai.Bool(true)
		st.Ghost["calls"] = ai.Int(0)
	}
	h.onCall = func(st *S, recv, at *T, pos token.Pos) string {
		h.mayRepeat(st, pos)
		wantB := st.GE(st.Ghost["count"], ai.Int(1)) && !gTrue(st, "sep")
		if verd {
			h.m.Check(st, !gTrue(st, "failed"), pos, "%s: matching goes on after a failure", ctor)
			if wantB {
				h.m.Check(st, st.Same(recv, b), pos, "%s: an element is not followed by the separator", ctor)
			} else {
				h.m.Check(st, st.Same(recv, a), pos, "%s: an element is expected at the start and after a separator", ctor)
			}
			h.m.Check(st, st.EQ(at, ai.Add(st.Ghost["pos"], st.Ghost["tent"])), pos, "%s: matching does not continue where the previous match ended", ctor)
		}
		if wantB {
			return "sep"
		}
		return "elem"
	}
	h.onOK = func(st *S, role string, n1 *T) {
		if role == "sep" {
			if h.progress {
				st.Ghost["free"] = ai.Bool(true) // progress is measured over separator and element
			}
			st.Ghost["sep"] = ai.Bool(true)
			st.Ghost["tent"] = n1
			return
		}
		tot := ai.Add(st.Ghost["tent"], n1)
		st.Ghost["pos"] = ai.Add(st.Ghost["pos"], tot)
		h.progressed(st, tot)
		st.Ghost["lastN"] = tot
		st.Ghost["tent"] = ai.Int(0)
		st.Ghost["sep"] = ai.Bool(false)
		st.Ghost["count"] = ai.AddK(st.Ghost["count"], 1)
	}
	h.onFail = func(st *S, role string, n1, err *T) {
		st.Ghost["failed"] = ai.Bool(true)
		st.Ghost["failN"] = n1
		st.Ghost["failErr"] = err
	}
	paths := 0
	for _, o := range h.match(st, g) {
		st := o.St
		if h.propagated(o) {
			continue
		}
		if !h.m.Check(st, o.Panic == nil, token.NoPos, "%s: the list aborts by itself", ctor) {
			continue
		}
		paths++
		n, err := ret2(o)
		if verd {
			if st.EQ(st.Ghost["count"], ai.Int(0)) {
				h.m.Check(st, gTrue(st, "failed"), token.NoPos, "%s: the element is never tried", ctor)
				if list0 {
					h.m.Check(st, errNil(st, err) && st.EQ(n, ai.Int(0)), token.NoPos, "%s: an empty list is not a match of no tokens", ctor)
				} else {
					h.m.Check(st, errNotNil(st, err) && st.Same(err, st.Ghost["failErr"]), token.NoPos, "%s: the first element failed but its error is not reported", ctor)
					h.m.Check(st, st.EQ(n, st.Ghost["failN"]), token.NoPos, "%s: the failure position is not that of the element", ctor)
				}
			} else {
				h.m.Check(st, errNil(st, err), token.NoPos, "%s: the list fails although an element was found", ctor)
				h.m.Check(st, st.EQ(n, st.Ghost["pos"]), token.NoPos, "%s: %s tokens are reported as consumed instead of %s (a separator without an element must not be consumed)", ctor, n, st.Ghost["pos"])
				h.m.Check(st, gTrue(st, "failed") || st.EQ(st.Ghost["lastN"], ai.Int(0)), token.NoPos,
					"%s: the list stops although the last element matched and consumed tokens", ctor)
			}
		}
		if what(h, "count") {
			for _, lo := range h.invoke(st, g, "Len") {
				h.m.Check(lo.St, lo.Panic == nil && lo.Ret != nil && lo.St.EQ(lo.Ret, lo.St.Ghost["count"]), token.NoPos,
					"%s: Len reports %s after %s elements", ctor, lo.Ret, lo.St.Ghost["count"])
			}
		}
	}
	c.Must(paths >= 2, token.NoPos, "tpl."+ctor, "no matching path")
	c.Case("%s(A,B), A and B arbitrary: %d return paths, %d child events", ctor, paths, h.events)
	c.Absorb(ctor, h.m)
}

func only(kinds ...string) func(*matchH, string) bool {
	return func(_ *matchH, k string) bool {
		for _, x := range kinds {
			if x == k {
				return true
			}
		}
		return false
	}
}

func allReps(c *Ctx, what func(*matchH, string) bool) {
	repCheck(c, "Repeat0", 0, false, what)
	repCheck(c, "Repeat1", 1, false, what)
	repCheck(c, "Repeat01", 0, true, what)
	listCheck(c, "List", false, what)
	listCheck(c, "List0", true, what)
}

func init() {
	register("C01", "Abstract interpretation of the sequence combinator built by its exported constructor over a symbolic list of children (any number, fail-fast marks anywhere). Every child match is an event with a success, a failure and an abort outcome; ghost counters for the expected child, the position and the failure are related to the program variables by an affine-equality fixpoint over the loop, and every return and abort is checked against them.",
		func(c *Ctx) { checkAnd(c, true) })
	register("C02", "Abstract interpretation of the choice combinator over a symbolic list of alternatives: order, first success, exhaustive failure, furthest failure position and its error are tracked by ghost state and checked at every return.",
		checkOr)
	register("C03", "Abstract interpretation of *G, +G, ?G, G1 % G2 and G1 %= G2 with arbitrary children: what is tried where, when the repetition stops, what it reports.",
		func(c *Ctx) { allReps(c, only("verdict")) })
	register("C04", "Progress rule on *G, +G, G1 % G2, G1 %= G2 (and everything they inline), for arbitrary children including ones that match nothing: every loop iteration tries a child, and no child is tried again after a repeated element matched without consuming a token.",
		func(c *Ctx) { allReps(c, only("progress")) })
	register("C05", "Abstract interpretation of the repetition combinators followed by their Len method: the reported length equals the ghost count of matches, although every child match may re-enter the same grammar and overwrite its mutable fields.",
		func(c *Ctx) { allReps(c, only("count")); checkLens(c) })
}

var _ = fmt.Sprint
