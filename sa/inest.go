package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("I01", "EvalCode of each engine is interpreted with the nested evaluation as an event with every outcome; what is observed before and after are the marks that run and the interpreter they get. The handlers of control statements of qlang are interpreted with every outcome of their parts", checkNested)
}

func checkNested(c *Ctx) {
	c.Rule("a nested evaluation is made once, of the given rule and source and with the given interpreter in use; however it ends - result, error or panic, itself nesting others and leaving mutes behind - afterwards the interpreter in use and the number of open mutes are as before, and its error or panic is passed on. However the parts of a control statement of qlang end, the level that a statement may clear the stack to is as before")
	for _, script := range []bool{false, true} {
		h := newMarkH(c, script)
		if h == nil {
			return
		}
		h.nested()
		c.Absorb(engineName(script), h.m)
	}
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	h.controlCases(h.runBase)
}

// nested interprets EvalCode.
func (h *markH) nested() {
	sigs := map[string]types.Type{"x": h.stackHandler(), "_x": h.stackHandler(), "ip": nil}
	if h.script {
		h.sfns = map[string]sfn{"x": {recv: 's', n: 1}, "_x": {recv: 's', n: 1}, "ip": {recv: 'i', n: 1}}
	} else {
		sigs["ip"] = h.sigOf(types.NewPointer(h.ipT))
	}
	if !h.build(sigs) {
		return
	}
	fn := ai.MethodOf(h.c.P.Prog, types.NewPointer(h.engT), h.c.P.Pkg(h.rel()).Pkg, "EvalCode")
	if fn == nil {
		h.c.Missing("method EvalCode of Engine")
		return
	}
	for _, mark := range []string{"_mute", "_unmute", "x", "_x", "ip"} {
		if h.action(mark) == nil {
			return
		}
	}
	if !h.m.Check(h.st, h.init != nil && h.init.K == ai.KClosure, h.pos, "the run hook is not known") {
		return
	}
	what := engineName(h.script)
	var ips []*T
	for _, n := range []string{"ip1", "ip2"} {
		if h.script {
			ips = append(ips, h.object(n, h.ipT, nil))
		} else {
			ips = append(ips, h.newInterp(n))
		}
	}
	param := func(st *S, ip *T) *T {
		if h.script {
			return ip
		}
		return ai.Iface(types.NewPointer(h.ipT), ip, ai.ParamType(fn.Signature, 1))
	}
	name := ai.NewSym("rule", ai.TString)
	src := ai.NewSym("source", ai.TAny)
	subs := 0
	var evalSub func(st *S, ci *ai.CallInfo) []ai.Outcome
	base := h.m.Hook
	h.m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Fn != nil && ci.Fn.Name() == "EvalSub" && ci.Fn.Pkg == h.c.P.Pkg("tpl") {
			return evalSub(st, ci), true
		}
		return base(m, st, ci)
	}
	// the number of open mutes and the interpreter in use, by what runs
	observe := func(st *S, mutes int, ip *T, when string) {
		run := func(st *S, mark string) (*S, int64, *T) {
			st.Ghost["calls"] = ai.Int(0)
			delete(st.Ghost, "arg0")
			for _, o := range h.m.CallValue(h.acts[mark], []*T{h.tokens(st, 1), h.gr["g"]}, st) {
				k, _ := ai.IntVal(o.St.Ghost["calls"])
				return o.St, k, o.St.Ghost["arg0"]
			}
			return st, -1, nil
		}
		s := st.Clone()
		for left := mutes; ; left-- {
			for _, mark := range []string{"x", "_x"} {
				want := int64(0)
				if left == 0 || left == 1 && mark[0] == '_' {
					want = 1
				}
				var k int64
				s, k, _ = run(s, mark)
				if !h.m.Check(s, k == want, fnPos2(fn), "%s: with %d of %d mutes open %s the mark %s runs its function %d times instead of %d", what, left, mutes, when, mark, k, want) {
					return
				}
			}
			if left == 0 {
				break
			}
			s, _, _ = run(s, "_unmute")
		}
		s, k, a := run(s, "ip")
		if a != nil && a.K == ai.KIface {
			a = a.Args[0]
		}
		h.m.Check(s, k == 1 && a != nil && s.Same(a, ip), fnPos2(fn), "%s: the interpreter in use %s is %s instead of %s", what, when, a, ip)
	}
	mute := func(st *S, n int) *S {
		for i := 0; i < n; i++ {
			for _, o := range h.m.CallValue(h.acts["_mute"], []*T{h.tokens(st, 1), h.gr["g"]}, st) {
				st = o.St
			}
		}
		return st
	}
	reset := func(st *S) *S {
		for _, o := range h.m.CallValue(h.init, nil, st) {
			st = o.St
		}
		return st
	}
	judge := func(o ai.Outcome, st0 *S, when string) {
		end, _ := ai.StrVal(o.St.Ghost["end"])
		v := o.St.Ghost["value"]
		switch end {
		case "ok":
			h.m.Check(o.St, o.Panic == nil && o.Ret != nil && o.St.Eval(o.St.IsNil(o.Ret)) > 0, fnPos2(fn), "%s: %s it fails", what, when)
		case "error":
			h.m.Check(o.St, o.Panic == nil && o.Ret != nil && o.St.Same(o.Ret, v), fnPos2(fn), "%s: %s the error is lost", what, when)
		case "panic":
			h.m.Check(o.St, o.Panic != nil && o.St.Same(o.Panic, v), fnPos2(fn), "%s: %s the panic is lost", what, when)
		default:
			h.m.Check(o.St, false, fnPos2(fn), "%s: the source is not evaluated", what)
		}
	}
	ends := func(st *S, left int) []ai.Outcome {
		st = mute(reset(st), left)
		e, p := st.Clone(), st.Clone()
		st.Ghost["end"] = ai.Str("ok")
		err := e.NewError(ai.Str("an error"))
		e.Ghost["end"], e.Ghost["value"] = ai.Str("error"), err
		pv := ai.NewSym("panicked", ai.TAny)
		p.Assume(ai.App("isnil", ai.TBool, pv), false)
		p.Ghost["end"], p.Ghost["value"] = ai.Str("panic"), pv
		return []ai.Outcome{{St: st, Ret: ai.Nil(errType())}, {St: e, Ret: err}, {St: p, Panic: pv}}
	}
	eval := func(st *S, ip *T) []ai.Outcome {
		delete(st.Ghost, "end")
		return h.m.Run(fn, []*T{h.eng, param(st, ip), name, src}, nil, st)
	}
	for before := 0; before <= 2; before++ {
		for left := 0; left <= 2; left++ {
			for _, deep := range []bool{false, true} {
				depth := 0
				evalSub = func(st *S, ci *ai.CallInfo) []ai.Outcome {
					subs++
					ok := len(ci.Args) == 3 && st.Same(ci.Args[1], name) && st.Same(ci.Args[2], src)
					h.m.Check(st, ok, ci.Pos(), "%s: another rule or source is evaluated", what)
					h.m.Check(st, st.Ghost["end"] == nil, ci.Pos(), "%s: the source is evaluated twice", what)
					if depth > 0 || !deep {
						observeIn := reset(st.Clone())
						observe(observeIn, 0, ips[depth], "in a nested evaluation")
						return ends(st, left)
					}
					st = mute(reset(st), 1)
					depth++
					var outs []ai.Outcome
					for _, o := range eval(st, ips[1]) {
						judge(o, st, "nested twice,")
						observe(o.St, 1, ips[0], "behind an evaluation inside a nested one")
						delete(o.St.Ghost, "end")
						outs = append(outs, ends(o.St, left)...)
					}
					depth--
					return outs
				}
				st := mute(h.st.Clone(), before)
				for _, o := range eval(st, ips[0]) {
					end, _ := ai.StrVal(o.St.Ghost["end"])
					judge(o, st, "behind a nested evaluation")
					observe(o.St, before, h.ip, desc("behind a nested evaluation that left %d mutes and ended with %s", left, end))
				}
			}
		}
	}
	h.c.Case("%s: %d nested evaluations", what, subs)
}

func (h *markH) rel() string {
	if h.script {
		return relScriptInterp
	}
	return relInterp
}

func fnPos2(fn *ssa.Function) (p token.Pos) { return fn.Pos() }

// runBase interprets the handler of a control statement: however its parts
// end, the level of the stack that statements may clear to is as before.
func (h *qclH) runBase(fn, ip *T, cs *ctlCase) {
	h.m.Key = func(st *S) string {
		if p := st.Ghost["phase"]; p != nil {
			return p.String()
		}
		return ""
	}
	h.st.Ghost["phase"] = ai.Str("")
	before := h.get(h.st, ip, "base")
	h.onEval = func(st *S, p, rule, cd *T, pos token.Pos) []ai.Outcome {
		label := ""
		for _, x := range cs.codes {
			if !x.empty && st.Same(x.t, cd) {
				label = x.label
			}
		}
		var outs []ai.Outcome
		out := func(res string, v, err, pv *T) {
			s := st.Clone()
			h.pushV(s, v)
			s.Ghost["phase"] = ai.Str(label + "=" + res)
			if pv != nil {
				outs = append(outs, ai.Outcome{St: s, Panic: pv})
				return
			}
			outs = append(outs, ai.Outcome{St: s, Ret: err})
		}
		nilErr := ai.Nil(errType())
		if names := cs.names(label); names != nil {
			for i, v := range cs.cond(label) {
				out(names[i], v, nilErr, nil)
			}
		} else {
			out("v", ai.NewSym("value", ai.TAny), nilErr, nil)
		}
		e := ai.NewSym("err", errType())
		st.Assume(ai.App("isnil", ai.TBool, e), false)
		out("err", ai.NewSym("junk", ai.TAny), e, nil)
		pv := ai.NewSym("panicked", ai.TAny)
		st.Assume(ai.App("isnil", ai.TBool, pv), false)
		out("panic", ai.NewSym("junk", ai.TAny), nil, pv)
		return outs
	}
	for _, o := range h.call(fn, ip, nil) {
		ph, _ := ai.StrVal(o.St.Ghost["phase"])
		h.m.Check(o.St, o.St.EQ(h.get(o.St, ip, "base"), before), fnPos(fn), "%s: after %q the level that statements may clear the stack to is not restored", cs.what, ph)
	}
	h.m.Key = nil
}
