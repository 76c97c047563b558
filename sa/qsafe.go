package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("Q06", "SafeExec and SafeEval are interpreted; executing the script and evaluating the expressions it deferred are events with every outcome", checkSafe)
}

const relQlang, relItp = "tpl/qlang", "tpl/interpreter"

func checkSafe(c *Ctx) {
	c.Rule("the script is executed once, with the source given; then each deferred expression is evaluated once, last in first out, until one fails; an error or a panic with a string or an error, of either, is the error returned unless it was recovered; no such panic escapes, and without failure nil is returned; the next script does not evaluate again what was evaluated")
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	qT, eT := c.Type(relQlang, "Qlang"), c.Type(relItp, "Engine")
	if qT == nil || eT == nil {
		return
	}
	qs, ok := qT.Underlying().(*types.Struct)
	if !ok {
		c.Missing("the struct Qlang")
		return
	}
	cases := 0
	for _, name := range []string{"SafeExec", "SafeEval"} {
		fn := ai.MethodOf(c.P.Prog, qT, c.P.Pkg(relQlang).Pkg, name)
		if fn == nil {
			c.Missing("method " + name + " of Qlang")
			continue
		}
		for nd := 0; nd <= 2; nd++ {
			cases++
			h.reset()
			ip := h.scope("scope", nil)
			eng := ai.NewObj("engine", eT)
			h.st.Store(eng, nonNilFields(h.st, "engine", eT), eT)
			var fs []*T
			for i := 0; i < qs.NumFields(); i++ {
				switch t := qs.Field(i).Type(); {
				case types.Identical(t, types.NewPointer(h.ipT)):
					fs = append(fs, ip)
				case types.Identical(t, types.NewPointer(eT)):
					fs = append(fs, eng)
				default:
					fs = append(fs, ai.FreshVal(h.st, qs.Field(i).Name(), t))
				}
			}
			ql := ai.StructT(qT, fs)
			var codes []*T
			good := true
			for i := 0; i < nd && good; i++ {
				var cc []code
				h.st, cc, good = h.run(h.st, ip, "defer", nil)
				if good = good && len(cc) == 1; good {
					codes = append(codes, cc[0].t)
				}
			}
			if !h.m.Check(h.st, good, token.NoPos, "an expression cannot be deferred") {
				continue
			}
			h.safe(fn, ql, ip, eng, codes, desc("%s with %d deferred expressions", name, nd))
			h.absorb(name)
		}
	}
	c.Case("%d cases", cases)
}

// nonNilFields is an arbitrary struct whose pointers and functions are there.
func nonNilFields(st *S, name string, t types.Type) *T {
	v := ai.FreshVal(st, name, t)
	if v.K == ai.KStruct {
		for _, a := range v.Args {
			switch a.Typ.Underlying().(type) {
			case *types.Pointer:
				st.Assume(ai.App("isnil", ai.TBool, a), false)
			}
		}
	}
	return v
}

func (h *qclH) safe(fn *ssa.Function, ql, ip, eng *T, codes []*T, what string) {
	h.m.Key = func(st *S) string {
		if p := st.Ghost["phase"]; p != nil {
			return p.String()
		}
		return ""
	}
	h.st.Ghost["phase"] = ai.Str("")
	nilErr := ai.Nil(errType())
	exprs := h.grammar().above("expr")
	nd := len(codes)
	phase := func(st *S) string { s, _ := ai.StrVal(st.Ghost["phase"]); return s }
	events := func(st *S, ph string) []ai.Outcome {
		var outs []ai.Outcome
		mk := func(res string, pend *T) *S {
			s := st.Clone()
			if pend != nil {
				s.Ghost["pending"] = pend
			} else if ph == "" {
				s.Ghost["pending"] = nilErr
			}
			s.Ghost["phase"] = ai.Str(ph + res)
			return s
		}
		outs = append(outs, ai.Outcome{St: mk("ok", nil), Ret: nilErr})
		e := ai.NewSym("error", errType())
		st.Assume(ai.App("isnil", ai.TBool, e), false)
		outs = append(outs, ai.Outcome{St: mk("error", e), Ret: e})
		pe := ai.NewSym("panicking", errType())
		st.Assume(ai.App("isnil", ai.TBool, pe), false)
		st.Assume(ai.TypeIs(pe, ai.TString), false)
		outs = append(outs, ai.Outcome{St: mk("panic-error", pe), Panic: pe})
		ps := ai.Iface(ai.TString, ai.FreshVal(st, "text", ai.TString), ai.TAny)
		outs = append(outs, ai.Outcome{St: mk("panic-string", ps), Panic: ps})
		return outs
	}
	src := ai.FreshVal(h.st, "code", types.NewSlice(types.Typ[types.Byte]))
	fname := ai.FreshVal(h.st, "fname", ai.TString)
	text := ai.FreshVal(h.st, "expr", ai.TString)
	execs := 0
	h.onExec = func(st *S, ci *ai.CallInfo) []ai.Outcome {
		ph := phase(st)
		if !h.m.Check(st, ph == "", ci.Pos(), "%s: after %q the script is executed again", what, ph) {
			return nil
		}
		execs++
		given := false
		for _, a := range ci.Args {
			given = given || st.Same(a, src) || isBytesOf(a, text)
		}
		h.m.Check(st, given, ci.Pos(), "%s: something else than the given source is executed", what)
		return events(st, "")
	}
	h.onEval = func(st *S, p, rule, cd *T, pos token.Pos) []ai.Outcome {
		ph := phase(st)
		k := strings.Count(ph, ";")
		i := nd - 1 - k
		rn, _ := ai.StrVal(rule)
		if !h.m.Check(st, ph != "" && i >= 0 && !strings.HasSuffix(ph, "!"), pos, "%s: after %q another expression is evaluated", what, ph) {
			return nil
		}
		h.m.Check(st, st.Same(cd, codes[i]) && st.Same(p, ip) && exprs[rn], pos, "%s: after %q something is evaluated that is not the next deferred expression", what, ph)
		outs := events(st, ph+";")
		for j := range outs {
			if j > 0 {
				outs[j].St.Ghost["phase"] = ai.Str(phase(outs[j].St) + "!")
			}
		}
		// a function it calls recovers
		s := st.Clone()
		s.Ghost["phase"] = ai.Str(ph + ";recovers")
		pend := s.Ghost["pending"]
		old := h.st
		h.st = s
		in := h.scope("deferred", p)
		h.st = old
		s, _, ok := h.run(s, in, "recover", nil)
		if h.m.Check(s, ok, pos, "%s: recover fails", what) {
			v := h.top(s, 0)
			if strings.HasPrefix(ph, "panic") {
				h.m.Check(s, s.Same(v, pend) || samePanic(s, v, pend) || s.Eval(s.IsNil(v)) > 0 && s.Eval(s.IsNil(pend)) > 0, pos, "%s: after %q recover yields %s instead of %s", what, ph, v, pend)
				s.Ghost["pending"] = nilErr
			} else {
				h.m.Check(s, s.Eval(s.IsNil(v)) > 0, pos, "%s: recover yields %s without a panic", what, v)
			}
			outs = append(outs, ai.Outcome{St: s, Ret: nilErr})
		}
		return outs
	}
	h.execIn = map[string]bool{"Matcher": true, "CompileRet": true}
	args := []*T{ql}
	sig := fn.Signature
	for i := 1; i < ai.NumIn(sig); i++ {
		switch t := ai.ParamType(sig, i); {
		case types.Identical(t, ai.TString) && i == 1:
			args = append(args, text)
		case types.Identical(t, ai.TString):
			args = append(args, fname)
		default:
			args = append(args, src)
		}
	}
	n := 0
	ended := map[string]*S{}
	for _, o := range h.m.Run(fn, args, nil, h.st) {
		st := o.St
		ph := phase(st)
		n++
		if ended[ph] == nil && o.Panic == nil {
			ended[ph] = st
		}
		if !h.m.Check(st, o.Panic == nil, fn.Pos(), "%s: after %q a panic escapes: %s", what, ph, o.Panic) {
			continue
		}
		if !h.m.Check(st, ph != "", fn.Pos(), "%s: ends without executing the script", what) {
			continue
		}
		h.m.Check(st, strings.Count(ph, ";") == nd || strings.HasSuffix(ph, "!"), fn.Pos(), "%s: after %q deferred expressions are left", what, ph)
		pend := st.Ghost["pending"]
		switch {
		case st.Eval(st.IsNil(pend)) > 0:
			h.m.Check(st, st.Eval(st.IsNil(o.Ret)) > 0, fn.Pos(), "%s: after %q an error is returned", what, ph)
		case pend.K == ai.KIface && types.Identical(pend.Typ, ai.TString):
			h.m.Check(st, st.Eval(st.IsNil(o.Ret)) < 0 && errMentions(st, o.Ret, pend.Args[0]), fn.Pos(), "%s: after %q the error returned (%s) does not have the text of the panic", what, ph, o.Ret)
		default:
			h.m.Check(st, st.Eval(st.IsNil(o.Ret)) < 0 && (st.Same(o.Ret, pend) || samePanic(st, o.Ret, pend)), fn.Pos(), "%s: after %q the error returned is %s instead of %s", what, ph, o.Ret, pend)
		}
	}
	h.m.Check(h.st, n > 0 && execs > 0, fn.Pos(), "%s: never ends", what)
	// the next script does not evaluate again what was evaluated
	var phs []string
	for ph := range ended {
		phs = append(phs, ph)
	}
	sort.Strings(phs)
	for _, ph := range phs {
		k := strings.Count(ph, ";")
		if k == 0 {
			continue
		}
		again := 0
		h.onExec = func(st *S, ci *ai.CallInfo) []ai.Outcome {
			again++
			return []ai.Outcome{{St: st, Ret: nilErr}}
		}
		h.onEval = func(st *S, p, rule, cd *T, pos token.Pos) []ai.Outcome {
			for i := nd - k; i < nd; i++ {
				h.m.Check(st, !st.Same(cd, codes[i]), pos, "%s: after %q the next script evaluates a deferred expression of this one again", what, ph)
			}
			return []ai.Outcome{{St: st, Ret: nilErr}}
		}
		st := ended[ph].Clone()
		st.Ghost["phase"] = ai.Str("")
		h.m.Run(fn, args, nil, st)
		h.m.Check(st, again > 0, fn.Pos(), "%s: after %q the next script is not executed", what, ph)
	}
	h.m.Key, h.onExec, h.onEval = nil, nil, nil
}

func isBytesOf(a, s *T) bool {
	return a != s && mentions(a, s)
}

// mentions: a term contains another one.
func mentions(a, s *T) bool {
	if a == s {
		return true
	}
	for _, x := range a.Args {
		if mentions(x, s) {
			return true
		}
	}
	return false
}

// errMentions: an error was made from a text.
func errMentions(st *S, e, s *T) bool {
	if d := st.ErrorDesc(e); d != nil {
		return mentions(d, s)
	}
	if e.K == ai.KIface {
		if p, ok := e.Typ.(*types.Pointer); ok {
			return mentions(st.Load(e.Args[0], p.Elem()), s)
		}
	}
	return mentions(e, s)
}
