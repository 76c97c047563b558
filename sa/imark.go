package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

const relInterp = "tpl/interpreter"
const relScriptInterp = "tpl/qlang/cl/interpreter"

func init() {
	register("I02", "the marker of each engine is interpreted to get the actions of its marks; all sequences of muting, unmuting and other actions are interpreted and the calls of handlers counted", checkMute)
	register("I03", "the marker of each engine is interpreted for handlers of every accepted signature; the action it makes is interpreted for every kind of source and way a handler can end", checkDispatch)
}

// markH interprets the construction of an engine and the actions it makes.
type markH struct {
	c     *Ctx
	m     *ai.Machine
	st    *S
	pos   token.Pos
	eng   *T         // *Engine
	engT  types.Type // Engine
	ip    *T         // the interpreter (boxed: ipI)
	ipT   types.Type
	stkT  types.Type
	stk   *T
	table *T
	mapT  types.Type
	acts  map[string]*T // actions by mark
	gr    map[string]*T // marked grammars
	init  *T
	hs    map[*T]string // handlers
	onFn  func(st *S, name string, ci *ai.CallInfo) []ai.Outcome
	ready bool

	marker    *T
	script    bool // the engine of package cl/interpreter
	fnsT      types.Type
	calls     map[*T]string // the methods of a script's interpreter object
	compErr   *T
	tokT      types.Type
	grT       types.Type
	compGram  string
	noLiteral bool
	tokenEnd  *ssa.Function
	sfns      map[string]sfn
	opnds     []*T
}

func newMarkH(c *Ctx, script bool) *markH {
	h := &markH{c: c, script: script}
	rel := relInterp
	if script {
		rel = relScriptInterp
	}
	h.engT = c.Type(rel, "Engine")
	h.tokT, h.grT = c.Type("tpl", "Token"), c.Type("tpl", "Grammar")
	if h.engT == nil || h.tokT == nil || h.grT == nil {
		return nil
	}
	h.tokenEnd = ai.MethodOf(c.P.Prog, types.NewPointer(h.tokT), c.P.Pkg("tpl").Pkg, "End")
	if !script {
		h.ipT, h.stkT = c.Type("tpl/number", "Calculator"), c.Type("tpl/number", "Stack")
		if h.ipT == nil || h.stkT == nil {
			return nil
		}
	}
	h.mapT = types.NewMap(ai.TString, ai.TAny)
	return h
}

// build makes an engine whose function table has the given handlers.
func (h *markH) build(sigs map[string]types.Type) bool {
	rel := relInterp
	if h.script {
		rel = relScriptInterp
	}
	c := h.c
	fn := c.Func(rel, "New")
	if fn == nil {
		return false
	}
	h.pos = fn.Pos()
	h.st = c.P.Base("tpl", rel, relUtil, "tpl/number", relQcl)
	h.m = c.Machine()
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	h.marker, h.eng, h.init = nil, nil, nil
	h.acts, h.gr, h.hs = map[string]*T{}, map[string]*T{}, map[*T]string{}
	h.calls = map[*T]string{}
	h.table = ai.NewObj("fntable", h.mapT)
	h.onFn = nil
	for mark, t := range sigs {
		f := ai.NewSym("handler:"+mark, t)
		h.st.Assume(ai.App("isnil", ai.TBool, f), false)
		h.hs[f] = mark
		h.st.MapStore(h.table, ai.Str("$"+mark), ai.Iface(t, f, ai.TAny), h.mapT)
	}
	var args []*T
	if h.script {
		if !h.scriptObject(sigs) {
			return false
		}
		args = []*T{ai.Iface(types.NewPointer(h.ipT), h.ip, ai.TAny)}
	} else {
		h.ip = ai.NewSym("ip", types.NewPointer(h.ipT))
		h.st.Assume(ai.App("isnil", ai.TBool, h.ip), false)
		h.stk = ai.NewSym("stk", types.NewPointer(h.stkT))
		h.st.Assume(ai.App("isnil", ai.TBool, h.stk), false)
		args = []*T{ai.Iface(types.NewPointer(h.ipT), h.ip, c.Type(relUtil, "Interface"))}
	}
	args = append(args, ai.Nil(fn.Signature.Params().At(1).Type()))
	outs := h.m.Run(fn, args, nil, h.st)
	n := 0
	for _, o := range outs {
		if o.Panic == nil && o.Ret != nil && o.Ret.K == ai.KTuple && o.St.Eval(o.St.IsNil(o.Ret.Args[1])) > 0 {
			h.st, h.eng = o.St, o.Ret.Args[0]
			n++
		}
	}
	if !h.m.Check(h.st, n == 1 && len(outs) == 1 && h.marker != nil, fn.Pos(), "%d ways to make an engine for an interpreter with the marks %v (%d results)", n, keysOf(sigs), len(outs)) {
		return false
	}
	return true
}

func keysOf(m map[string]types.Type) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func (h *markH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	if ci.FnTerm != nil {
		if mark, ok := h.hs[ci.FnTerm]; ok {
			return h.handlerCall(st, mark, ci), true
		}
	}
	if ci.Method != nil && ci.Method.Name() == "Len" && h.gr["g"] != nil && ci.Recv == h.gr["g"] {
		return one(h.gr["len"])
	}
	if ci.Fn == nil {
		return nil, false
	}
	fn := ci.Fn
	recv := fn.Signature.Recv()
	if recv == nil {
		if fn.Pkg != nil && fn.Pkg == h.c.P.Pkg("tpl") && fn.Name() == "Action" {
			g := ai.FreshVal(st, "marked", h.grT)
			h.acts["last"] = ci.Args[1]
			h.gr["last"] = ci.Args[0]
			return one(g)
		}
		if fn.Pkg != nil && fn.Pkg == h.c.P.Pkg(relInterp) && (fn.Name() == "ParseInt" || fn.Name() == "ParseFloat") {
			return h.parsed(st, fn, ci.Args[0]), true
		}
		if h.script && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "strconv" && (fn.Name() == "ParseFloat" || fn.Name() == "Atoi") {
			return h.parsed(st, fn, ci.Args[0]), true
		}
		return nil, false
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch {
	case fn.Name() == "Cl" && types.Identical(t, h.c.Type("tpl", "Compiler")):
		comp := ci.Args[0]
		get := func(name string) *T {
			i, ft := fieldIdx(t, name)
			if i < 0 {
				return nil
			}
			return st.Load(ai.FieldAddr(comp, i, types.NewPointer(ft)), ft)
		}
		h.marker, h.init = get("Marker"), get("Init")
		return one(ai.Tuple(ai.FreshVal(st, "compiled", fn.Signature.Results().At(0).Type()), ai.Nil(errType())))
	case h.tokenEnd != nil && fn.Name() == "End" && types.Identical(t, h.tokT):
		a := ci.Args[0]
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			a = st.Load(a, h.tokT)
		}
		if a.K != ai.KStruct {
			return nil, false
		}
		return one(ai.App("tokenEnd", fn.Signature.Results().At(0).Type(), a.Args...))
	case h.script && fn.Name() == "Call" && h.calls[ci.Args[0]] != "":
		return h.scriptCall(st, ci)
	case !h.script && types.Identical(t, h.stkT) && (fn.Name() == "PopArgs" || fn.Name() == "PushRet"):
		h.m.Check(st, ci.Args[0] == h.stk, ci.Pos(), "the stack is another one than that of the interpreter")
		if fn.Name() == "PopArgs" {
			rt := fn.Signature.Results().At(0).Type()
			k, ok := ai.IntVal(ci.Args[1])
			if !h.m.Check(st, ok, ci.Pos(), "the number of arguments is not known") {
				return nil, true
			}
			logged(st, fmt.Sprintf("pop%d", k))
			f := st.Clone()
			f.Ghost["few"] = ai.Bool(true)
			o := ai.NewObj("popped", types.NewArray(ai.RVType, k))
			for i := int64(0); i < k; i++ {
				st.Store(ai.IndexAddr(o, ai.Int(i), types.NewPointer(ai.RVType)), ai.RV(ai.Iface(types.Typ[types.Float64], h.operand(int(i)), ai.TAny)), ai.RVType)
			}
			return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.SliceT(rt, o, ai.Int(0), ai.Int(k), ai.Int(k)), ai.Bool(true))}, {St: f, Ret: ai.Tuple(ai.Nil(rt), ai.Bool(false))}}, true
		}
		logged(st, "push")
		if n, ok := ai.IntVal(st.Len(ci.Args[1])); ok && n == 1 {
			arr, lo, _, _ := st.SliceParts(ci.Args[1])
			st.Ghost["pushed"] = st.Load(ai.IndexAddr(arr, lo, types.NewPointer(ai.RVType)), ai.RVType)
		}
		e := st.Clone()
		err := e.NewError(ai.Str("unsupported result"))
		e.Ghost["pusherr"] = err
		return []ai.Outcome{{St: st, Ret: ai.Nil(errType())}, {St: e, Ret: err}}, true
	case !h.script && types.Identical(t, h.ipT):
		switch fn.Name() {
		case "Fntable":
			return one(h.table)
		case "Stack":
			return one(ai.Iface(types.NewPointer(h.stkT), h.stk, fn.Signature.Results().At(0).Type()))
		}
	}
	return nil, false
}

// parsed is the result of parsing a literal: a value of it or an error.
func (h *markH) parsed(st *S, fn *ssa.Function, lit *T) []ai.Outcome {
	rt := fn.Signature.Results().At(0).Type()
	e := st.Clone()
	err := e.NewError(ai.App("bad:"+fn.Name(), ai.TString, lit))
	e.Ghost["parseerr"] = err
	return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.App(fn.Name(), rt, lit), ai.Nil(errType()))}, {St: e, Ret: ai.Tuple(ai.Zero(rt), err)}}
}

// handlerCall is the call of a bound function.
func (h *markH) handlerCall(st *S, mark string, ci *ai.CallInfo) []ai.Outcome {
	n, _ := ai.IntVal(st.Ghost["calls"])
	st.Ghost["calls"] = ai.Int(n + 1)
	logged(st, mark)
	for i, a := range ci.Args {
		st.Ghost[fmt.Sprintf("arg%d", i)] = a
	}
	if h.onFn != nil {
		return h.onFn(st, mark, ci)
	}
	return []ai.Outcome{{St: st, Ret: ai.FreshTuple(st, ci.Sig.Results(), "ret")}}
}

// action makes the action of a mark.
func (h *markH) action(mark string) *T {
	if a := h.acts[mark]; a != nil {
		return a
	}
	if h.gr["g"] == nil {
		h.gr["g"] = ai.NewSym("g", h.grT)
		h.st.Assume(ai.App("isnil", ai.TBool, h.gr["g"]), false)
		h.gr["len"] = ai.NewSym("len", ai.TInt)
	}
	h.acts["last"] = nil
	outs := h.m.CallValue(h.marker, []*T{h.gr["g"], ai.Str(mark)}, h.st)
	ok := len(outs) == 1 && outs[0].Panic == nil && h.acts["last"] != nil
	if !h.m.Check(h.st, ok, h.pos, "the mark %s does not become an action", mark) {
		return nil
	}
	h.m.Check(h.st, h.gr["last"] == h.gr["g"], h.pos, "the action of the mark %s is that of another grammar", mark)
	h.st = outs[0].St
	h.acts[mark] = h.acts["last"]
	return h.acts[mark]
}

// tokens makes a source of n tokens.
func (h *markH) tokens(st *S, n int) *T {
	t := types.NewSlice(h.tokT)
	o := ai.NewObj("tokens", types.NewArray(h.tokT, int64(n)+1))
	for i := 0; i <= n; i++ {
		st.Store(ai.IndexAddr(o, ai.Int(int64(i)), types.NewPointer(h.tokT)), ai.FreshVal(st, fmt.Sprintf("tok%d", i), h.tokT), h.tokT)
	}
	return ai.SliceT(t, o, ai.Int(0), ai.Int(int64(n)), ai.Int(int64(n)+1))
}

func engineName(script bool) string {
	if script {
		return "the engine of scripts"
	}
	return "the engine"
}

func checkMute(c *Ctx) {
	c.Rule("after any sequence of _mute, _unmute and other marks, a mark runs its handler exactly once if it is not muted, or if it starts with _ and is muted once; it runs nothing otherwise; the state of a run starts unmuted")
	max := 5
	if c.Tier == "thorough" {
		max = 7
	}
	for _, script := range []bool{false, true} {
		h := newMarkH(c, script)
		if h == nil {
			return
		}
		sig := h.stackHandler()
		if !h.build(map[string]types.Type{"x": sig, "_x": sig, "LEN": sig, "_LEN": sig}) {
			h.c.Absorb("New", h.m)
			continue
		}
		what := engineName(script)
		syms := []string{"_mute", "_unmute", "x", "_x"}
		for _, s := range append(syms, "LEN", "_LEN") {
			if h.action(s) == nil {
				h.c.Absorb("marker", h.m)
				return
			}
		}
		n := 0
		var walk func(st *S, path []string, muted int)
		walk = func(st *S, path []string, muted int) {
			if len(path) == max {
				return
			}
			for _, s := range syms {
				m1 := muted
				want := int64(0)
				switch s {
				case "_mute":
					m1++
				case "_unmute":
					m1--
					if m1 < 0 {
						continue
					}
				default:
					if muted == 0 || muted == 1 && s[0] == '_' {
						want = 1
					}
				}
				name := s
				if len(path)%2 == 1 && s[len(s)-1] == 'x' {
					name = strings.Replace(s, "x", "LEN", 1)
				}
				p := append(append([]string{}, path...), name)
				s0 := st.Clone()
				s0.Ghost["calls"] = ai.Int(0)
				outs := h.m.CallValue(h.acts[name], []*T{h.tokens(s0, 1), h.gr["g"]}, s0)
				n++
				for i, o := range outs {
					k, _ := ai.IntVal(o.St.Ghost["calls"])
					h.m.Check(o.St, o.Panic == nil, h.pos, "%s: the marks %s panic", what, strings.Join(p, " "))
					h.m.Check(o.St, k == want, h.pos, "%s: behind the marks %s the handler of the last one runs %d times instead of %d", what, strings.Join(p, " "), k, want)
					if i == 0 {
						s0 = o.St
					}
				}
				if !h.m.Check(st, len(outs) == 1, h.pos, "%s: the marks %s have %d results", what, strings.Join(p, " "), len(outs)) {
					continue
				}
				walk(s0, p, m1)
			}
		}
		walk(h.st, nil, 0)
		// the hook of a run
		for k := 0; k <= 3; k++ {
			st := h.st.Clone()
			for i := 0; i < k; i++ {
				for _, o := range h.m.CallValue(h.acts["_mute"], []*T{h.tokens(st, 1), h.gr["g"]}, st) {
					st = o.St
				}
			}
			if !h.m.Check(st, h.init != nil && h.init.K == ai.KClosure, h.pos, "%s: its run hook is not known", what) {
				break
			}
			for _, o := range h.m.CallValue(h.init, nil, st) {
				s := o.St.Clone()
				s.Ghost["calls"] = ai.Int(0)
				for _, o := range h.m.CallValue(h.acts["x"], []*T{h.tokens(s, 1), h.gr["g"]}, s) {
					v, _ := ai.IntVal(o.St.Ghost["calls"])
					h.m.Check(o.St, v == 1, h.pos, "%s: a new run is muted after one that left %d mutes", what, k)
				}
			}
		}
		h.c.Absorb(what, h.m)
		c.Case("%s: %d actions in sequences of up to %d marks", what, n, max)
		mutedKinds(c, script)
	}
}

// mutedKinds interprets the marks of every other kind of handler with up to
// three open mutes.
func mutedKinds(c *Ctx, script bool) {
	float := types.Typ[types.Float64]
	kinds := []string{"of the interpreter", "of the values on the stack"}
	if script {
		kinds = append(kinds, "in Go")
	}
	for k, kind := range kinds {
		h := newMarkH(c, script)
		sigs := map[string]types.Type{}
		h.sfns = map[string]sfn{}
		for _, mark := range []string{"x", "_x", "LEN", "_LEN"} {
			var t types.Type
			d := sfn{n: 1}
			switch k {
			case 0:
				d.recv = 'i'
				if !script {
					t = h.sigOf(types.NewPointer(h.ipT))
				}
			case 1:
				if !script {
					t = h.sigRes([]types.Type{float}, float)
				}
			case 2:
				d.goFn = h.sigRes([]types.Type{float}, float).(*types.Signature)
			}
			sigs[mark], h.sfns[mark] = t, d
		}
		if !h.build(sigs) {
			h.c.Absorb("New", h.m)
			continue
		}
		what := engineName(script)
		for _, s := range []string{"_mute", "x", "_x", "LEN", "_LEN"} {
			if h.action(s) == nil {
				h.c.Absorb("marker", h.m)
				return
			}
		}
		st := h.st.Clone()
		for muted := 0; muted <= 3; muted++ {
			for mark := range sigs {
				want := int64(0)
				if muted == 0 || muted == 1 && mark[0] == '_' {
					want = 1
				}
				s := st.Clone()
				s.Ghost["calls"], s.Ghost["log"] = ai.Int(0), ai.Str("")
				runs := 0
				for _, o := range h.m.CallValue(h.acts[mark], []*T{h.tokens(s, 1), h.gr["g"]}, s) {
					n, _ := ai.IntVal(o.St.Ghost["calls"])
					if want == 1 && n == 0 && o.Panic != nil {
						continue // too few values
					}
					runs++
					h.m.Check(o.St, n == want, h.pos, "%s: with %d mutes open the handler of the mark %s, a function %s, runs %d times instead of %d", what, muted, mark, kind, n, want)
					if want == 0 {
						l, _ := ai.StrVal(o.St.Ghost["log"])
						h.m.Check(o.St, l == "" && o.Panic == nil, h.pos, "%s: with %d mutes open the mark %s, bound to a function %s, has the effect %s", what, muted, mark, kind, l)
					}
				}
				h.m.Check(st, runs > 0, h.pos, "%s: with %d mutes open the mark %s, bound to a function %s, does not run", what, muted, mark, kind)
			}
			for _, o := range h.m.CallValue(h.acts["_mute"], []*T{h.tokens(st, 1), h.gr["g"]}, st) {
				st = o.St
			}
		}
		c.Case("%s: functions %s", what, kind)
		h.c.Absorb(what, h.m)
	}
}

// stackHandler is the type of a handler of the stack.
func (h *markH) stackHandler() types.Type {
	if h.script {
		return nil
	}
	return h.sigOf(types.NewPointer(h.stkT))
}

func (h *markH) sigOf(ts ...types.Type) types.Type { return h.sigRes(nil, ts...) }

func (h *markH) sigRes(res []types.Type, ts ...types.Type) types.Type {
	var ps, rs []*types.Var
	for i, t := range ts {
		ps = append(ps, types.NewParam(token.NoPos, nil, fmt.Sprintf("p%d", i), t))
	}
	for _, t := range res {
		rs = append(rs, types.NewParam(token.NoPos, nil, "", t))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
}

// sfn describes a handler that is a function of a script.
type sfn struct {
	recv byte // 's' of the class of the stack, 'i' of the interpreter's, 0 neither
	n    int  // parameters
	goFn *types.Signature
}

// object makes a struct in the heap.
func (h *markH) object(name string, t types.Type, fields map[string]*T) *T {
	o := ai.NewObj(name, t)
	h.st.Store(o, ai.Zero(t), t)
	for f, v := range fields {
		i, ft := fieldIdx(t, f)
		if i < 0 {
			h.c.Missing("field " + f + " of " + t.String())
			continue
		}
		h.st.Store(ai.FieldAddr(o, i, types.NewPointer(ft)), v, ft)
	}
	return o
}

// scriptObject makes the interpreter object of a script: its class has the
// methods stack, fntable and grammar.
func (h *markH) scriptObject(sigs map[string]types.Type) bool {
	objT, clsT, fnT := h.c.Type(relQcl, "Object"), h.c.Type(relQcl, "Class"), h.c.Type(relQcl, "Function")
	if objT == nil || clsT == nil || fnT == nil {
		return false
	}
	_, fnsT := fieldIdx(clsT, "Fns")
	if fnsT == nil {
		h.c.Missing("field Fns of Class")
		return false
	}
	h.ipT = objT
	fnP := types.NewPointer(fnT)
	names := func(n int) *T {
		o := ai.NewObj("names", types.NewArray(ai.TString, int64(n)))
		for i := 0; i < n; i++ {
			h.st.Store(ai.IndexAddr(o, ai.Int(int64(i)), types.NewPointer(ai.TString)), ai.Str(fmt.Sprintf("p%d", i)), ai.TString)
		}
		return ai.SliceT(types.NewSlice(ai.TString), o, ai.Int(0), ai.Int(int64(n)), ai.Int(int64(n)))
	}
	class := func(name string, methods ...string) *T {
		fns := ai.NewObj(name+".Fns", fnsT)
		cls := h.object(name, clsT, map[string]*T{"Fns": fns})
		for _, m := range methods {
			f := h.object(name+"."+m, fnT, map[string]*T{"Args": names(1), "Cls": cls})
			h.calls[f] = m
			h.st.MapStore(fns, ai.Str(m), f, fnsT)
		}
		return cls
	}
	ipCls, stkCls := class("ip class", "stack", "fntable", "grammar"), class("stack class", "popArgs", "push")
	h.ip = h.object("ip", objT, map[string]*T{"Cls": ipCls})
	h.stk = h.object("stk", objT, map[string]*T{"Cls": stkCls})
	for mark := range sigs {
		d := h.sfns[mark]
		if d.n == 0 {
			d = sfn{recv: 's', n: 1}
		}
		if d.goFn != nil {
			f := ai.NewSym("handler:"+mark, d.goFn)
			h.st.Assume(ai.App("isnil", ai.TBool, f), false)
			h.hs[f] = mark
			h.st.MapStore(h.table, ai.Str("$"+mark), ai.Iface(d.goFn, f, ai.TAny), h.mapT)
			continue
		}
		fs := map[string]*T{"Args": names(d.n)}
		switch d.recv {
		case 's':
			fs["Cls"] = stkCls
		case 'i':
			fs["Cls"] = ipCls
		}
		f := h.object("handler:"+mark, fnT, fs)
		h.calls[f] = "$" + mark
		h.st.MapStore(h.table, ai.Str("$"+mark), ai.Iface(fnP, f, ai.TAny), h.mapT)
	}
	return true
}

// scriptCall is the call of a method of a script.
func (h *markH) scriptCall(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	var args []*T
	if n, ok := ai.IntVal(st.Len(ci.Args[1])); ok {
		arr, lo, _, _ := st.SliceParts(ci.Args[1])
		for i := int64(0); i < n; i++ {
			args = append(args, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(ai.TAny)), ai.TAny))
		}
	} else {
		h.m.Check(st, false, ci.Pos(), "the arguments of a call are not known")
	}
	self := func(o *T) bool {
		return len(args) > 0 && args[0].K == ai.KIface && args[0].Args[0] == o
	}
	name := h.calls[ci.Args[0]]
	switch name {
	case "stack", "fntable", "grammar":
		h.m.Check(st, self(h.ip), ci.Pos(), "the method %s is called on another object", name)
		switch name {
		case "stack":
			return one(ai.Iface(types.NewPointer(h.ipT), h.stk, ai.TAny))
		case "fntable":
			return one(ai.Iface(h.mapT, h.table, ai.TAny))
		}
		return one(ai.Iface(ai.TString, ai.NewSym("grammar", ai.TString), ai.TAny))
	case "popArgs":
		h.m.Check(st, self(h.stk), ci.Pos(), "the method %s is called on another object", name)
		k := int64(-1)
		if len(args) == 2 && args[1].K == ai.KIface {
			k, _ = ai.IntVal(args[1].Args[0])
		}
		logged(st, fmt.Sprintf("pop%d", k))
		o := ai.NewObj("popped", types.NewArray(ai.TAny, k))
		for i := int64(0); i < k; i++ {
			v := ai.Iface(types.Typ[types.Float64], h.operand(int(i)), ai.TAny)
			st.Store(ai.IndexAddr(o, ai.Int(i), types.NewPointer(ai.TAny)), v, ai.TAny)
		}
		t := types.NewSlice(ai.TAny)
		return one(ai.Iface(t, ai.SliceT(t, o, ai.Int(0), ai.Int(k), ai.Int(k)), ai.TAny))
	case "push":
		h.m.Check(st, self(h.stk) && len(args) == 2, ci.Pos(), "the method %s is called on another object", name)
		logged(st, "push")
		if len(args) == 2 {
			st.Ghost["pushed"] = args[1]
		}
		return one(ai.Nil(ai.TAny))
	}
	return h.handlerCall(st, name[1:], &ai.CallInfo{Args: args, Sig: ci.Fn.Signature}), true
}

// operand is the value of an operand on the stack of a script.
func (h *markH) operand(i int) *T {
	for len(h.opnds) <= i {
		h.opnds = append(h.opnds, ai.NewSym(fmt.Sprintf("operand%d", len(h.opnds)), types.Typ[types.Float64]))
	}
	return h.opnds[i]
}
