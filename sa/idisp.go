package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"verif/sa/ai"
)

// dcase is a mark and what its handler is to get.
type dcase struct {
	mark   string
	recv   byte       // 's' stack, 'i' interpreter, 0 none
	params int        // parameters, the receiver included
	second types.Type // of the second parameter
	kind   string     // what the second parameter asks for: none len ctx src engine text float int64 int bad
	res    *types.Tuple
}

func checkDispatch(c *Ctx) {
	c.Rule("the action of a mark calls its handler once, on the stack or the interpreter now in use, with the length, context, tokens, engine, text or number that its parameters ask for; a handler without receiver takes its arguments from the stack and its result is put there; where an argument cannot be supplied the handler is not called and that is an error; an error or a panic of the handler with an error or text leaves as a runtime error with that cause, the tokens and the grammar, a runtime or match error and any other panic unchanged; the text of a runtime error names file, line and cause")
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	for _, script := range []bool{false, true} {
		h := newMarkH(c, script)
		if h == nil {
			return
		}
		if script {
			h.scriptDispatch()
		} else {
			h.dispatch()
		}
		h.c.Absorb(engineName(script), h.m)
	}
	errorText(c)
}

func (h *markH) handled(st *S, sig *types.Signature) []ai.Outcome {
	var outs []ai.Outcome
	mark := func(s *S, how string, v *T) *S {
		s.Ghost["end"] = ai.Str(how)
		if v != nil {
			s.Ghost["value"] = v
		}
		return s
	}
	rt := sig.Results()
	var ret *T
	switch rt.Len() {
	case 0:
		ret = ai.Tuple()
	default:
		var rs []*T
		for i := 0; i < rt.Len(); i++ {
			t := rt.At(i).Type()
			if types.Identical(t, errType()) {
				rs = append(rs, ai.Nil(t))
			} else {
				rs = append(rs, ai.FreshVal(st, "result", t))
			}
		}
		ret = ai.Tuple(rs...)
		if rt.Len() == 1 {
			ret = rs[0]
		}
	}
	if rt.Len() == 1 && types.Identical(rt.At(0).Type(), errType()) {
		s := st.Clone()
		e := s.NewError(ai.Str("an error"))
		outs = append(outs, ai.Outcome{St: mark(s, "error", e), Ret: e})
	}
	pan := func(how string, f func(s *S) *T) {
		s := st.Clone()
		v := f(s)
		outs = append(outs, ai.Outcome{St: mark(s, how, v), Panic: v})
	}
	pan("error", func(s *S) *T { return s.NewError(ai.Str("a panic")) })
	pan("text", func(s *S) *T { return ai.Iface(ai.TString, ai.FreshVal(s, "text", ai.TString), ai.TAny) })
	pan("other", func(s *S) *T { return ai.Iface(ai.TInt, ai.FreshVal(s, "code", ai.TInt), ai.TAny) })
	for _, t := range []types.Type{h.c.Type(relInterp, "RuntimeError"), h.c.Type("tpl", "MatchError")} {
		if t == nil {
			continue
		}
		t := types.NewPointer(t)
		pan("as is", func(s *S) *T {
			p := ai.NewSym("panicking", t)
			s.Assume(ai.App("isnil", ai.TBool, p), false)
			return ai.Iface(t, p, ai.TAny)
		})
	}
	st.Ghost["end"] = ai.Str("")
	if rt.Len() > 0 {
		st.Ghost["value"] = ret
	}
	return append(outs, ai.Outcome{St: st, Ret: ret})
}

func (h *markH) dispatch() {
	ctxT, engI := h.c.Type(relUtil, "Context"), h.c.Type(relUtil, "Engine")
	rtErr := h.c.Type(relInterp, "RuntimeError")
	if ctxT == nil || engI == nil || rtErr == nil {
		return
	}
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	ctxP := types.NewPointer(ctxT)
	seconds := []struct {
		kind string
		t    types.Type
	}{{"none", nil}, {"ctx", ctxP}, {"src", ai.TAny}, {"engine", engI}, {"text", ai.TString}, {"float", b(types.Float64)}, {"int64", b(types.Int64)}, {"int", ai.TInt}, {"bad", b(types.Int32)}, {"bad", b(types.Bool)}, {"bad", b(types.Float32)}, {"bad", types.NewSlice(b(types.Uint8))}}
	sigs := map[string]types.Type{}
	var cases []dcase
	names := func() []string {
		i := len(sigs)
		return []string{fmt.Sprintf("a%d", i), fmt.Sprintf("_a%d", i), fmt.Sprintf("A%d", i), fmt.Sprintf("_A%d", i), fmt.Sprintf("fooBar%d", i)}
	}
	isLen := func(mark string) bool {
		if mark[0] == '_' {
			mark = mark[1:]
		}
		return mark[0] >= 'A' && mark[0] <= 'Z'
	}
	for _, recv := range []byte{'s', 'i'} {
		rt := types.NewPointer(h.stkT)
		if recv == 'i' {
			rt = types.NewPointer(h.ipT)
		}
		for _, sec := range seconds {
			for _, third := range []bool{false, true} {
				if third && sec.t == nil {
					continue
				}
				for _, withErr := range []bool{false, true} {
					ps := []types.Type{rt}
					if sec.t != nil {
						ps = append(ps, sec.t)
					}
					if third {
						ps = append(ps, ctxP)
					}
					var res []types.Type
					if withErr {
						res = append(res, errType())
					}
					sig := h.sigRes(res, ps...)
					for _, mark := range names() {
						d := dcase{mark: mark, recv: recv, params: len(ps), second: sec.t, kind: sec.kind, res: sig.(*types.Signature).Results()}
						if isLen(mark) && sec.t != nil {
							d.kind = "bad"
							if sec.kind == "int" {
								d.kind = "len"
							}
						}
						sigs[mark] = sig
						cases = append(cases, d)
					}
				}
			}
		}
	}
	for k := 1; k <= 3; k++ {
		var ps []types.Type
		for i := 0; i < k; i++ {
			ps = append(ps, b(types.Float64))
		}
		for _, mark := range names() {
			sig := h.sigRes([]types.Type{b(types.Float64)}, ps...)
			sigs[mark] = sig
			cases = append(cases, dcase{mark: mark, params: k, kind: "none", res: sig.(*types.Signature).Results()})
		}
	}
	if !h.build(sigs) {
		return
	}
	// another interpreter object is evaluating now
	ip2 := h.newInterp("ip2")
	i, ft := fieldIdx(h.engT, "Interpreter")
	if i < 0 {
		h.c.Missing("field Interpreter of Engine")
		return
	}
	h.st.Store(ai.FieldAddr(h.eng, i, types.NewPointer(ft)), ai.Iface(types.NewPointer(h.ipT), ip2, ft), ft)
	h.onFn = func(st *S, name string, ci *ai.CallInfo) []ai.Outcome { return h.handled(st, ci.Sig) }
	n := 0
	for _, d := range cases {
		if h.action(d.mark) == nil {
			continue
		}
		for nt := 0; nt <= 3; nt++ {
			if nt == 2 {
				continue
			}
			st := h.st.Clone()
			st.Ghost["calls"] = ai.Int(0)
			src := h.tokens(st, nt)
			what := desc("the mark %s of a function of %s with %d tokens", d.mark, sigs[d.mark], nt)
			kind := d.kind
			if nt == 0 && (kind == "text" || kind == "float" || kind == "int" || kind == "int64") {
				kind = "bad"
			}
			for _, o := range h.m.CallValue(h.acts[d.mark], []*T{src, h.gr["g"]}, st) {
				n++
				h.judge(o, d, kind, src, nt, ip2, rtErr, ctxT, what)
			}
		}
	}
	h.c.Case("the engine: %d marks, %d outcomes", len(cases), n)
}

func (h *markH) newInterp(name string) *T {
	v := ai.NewSym(name, types.NewPointer(h.ipT))
	h.st.Assume(ai.App("isnil", ai.TBool, v), false)
	return v
}

func (h *markH) judge(o ai.Outcome, d dcase, kind string, src *T, nt int, ip2 *T, rtErr, ctxT types.Type, what string) {
	st, m := o.St, h.m
	calls, _ := ai.IntVal(st.Ghost["calls"])
	asError := func(cause *T, text *T) {
		v := o.Panic
		if !m.Check(st, v != nil && v.K == ai.KIface && types.Identical(v.Typ, types.NewPointer(rtErr)), h.pos, "%s: a failure does not become a runtime error (%s)", what, v) {
			return
		}
		get := func(f string) *T {
			i, ft := fieldIdx(rtErr, f)
			if i < 0 {
				h.c.Missing("field " + f + " of RuntimeError")
				return nil
			}
			return st.Load(ai.FieldAddr(v.Args[0], i, types.NewPointer(ft)), ft)
		}
		if e := get("Err"); e != nil {
			m.Check(st, st.Eval(st.IsNil(e)) < 0, h.pos, "%s: the runtime error has no cause", what)
			if cause != nil {
				m.Check(st, st.Same(e, cause), h.pos, "%s: the cause of the runtime error is %s instead of %s", what, e, cause)
			}
			if text != nil {
				ed := st.ErrorDesc(e)
				m.Check(st, ed != nil && ai.Contains(ed, text), h.pos, "%s: the cause of the runtime error is %s, not the text of the panic", what, e)
			}
		}
		if s := get("Src"); s != nil {
			m.Check(st, sameSlice(st, s, src, nt), h.pos, "%s: the source of the runtime error is not the tokens of the mark", what)
		}
		if g := get("Grammar"); g != nil {
			m.Check(st, st.Same(g, h.gr["g"]), h.pos, "%s: the grammar of the runtime error is another one", what)
		}
		if x := get("Ctx"); x != nil {
			m.Check(st, x.K == ai.KIface && st.Same(x.Args[0], h.matcher(st)), h.pos, "%s: the runtime error does not refer to the matcher of the engine", what)
		}
	}
	if kind == "bad" || st.Ghost["parseerr"] != nil || st.Ghost["few"] != nil {
		m.Check(st, calls == 0, h.pos, "%s: the function is called although its argument cannot be supplied", what)
		asError(nil, nil)
		return
	}
	if !m.Check(st, calls == 1, h.pos, "%s: the function is called %d times", what, calls) {
		return
	}
	arg := func(i int) *T { return st.Ghost[fmt.Sprintf("arg%d", i)] }
	// arguments
	m.Check(st, arg(d.params-1) != nil && arg(d.params) == nil, h.pos, "%s: the function gets another number of arguments", what)
	switch d.recv {
	case 's':
		m.Check(st, st.Same(arg(0), h.stk), h.pos, "%s: the function gets %s instead of the stack", what, arg(0))
	case 'i':
		m.Check(st, st.Same(arg(0), ip2), h.pos, "%s: the function gets %s instead of the interpreter in use", what, arg(0))
	default:
		for i := 0; i < d.params; i++ {
			m.Check(st, st.Same(arg(i), h.operand(i)), h.pos, "%s: argument %d is %s instead of operand %d", what, i, arg(i), i)
		}
		want := fmt.Sprintf("pop%d;%s;", d.params, d.mark)
		if e, _ := ai.StrVal(st.Ghost["end"]); e == "" {
			want += "push;"
			p := st.Ghost["pushed"]
			m.Check(st, p != nil && ai.Contains(p, st.Ghost["value"]), h.pos, "%s: the result pushed is %s instead of %s", what, p, st.Ghost["value"])
		}
		m.Check(st, theLog(st) == want, h.pos, "%s: the stack is used as %s instead of %s", what, theLog(st), want)
	}
	var lit *T
	if nt > 0 {
		lit = h.tokField(st, src, 0, "Literal")
	}
	if d.recv != 0 && d.params >= 2 {
		a := arg(1)
		ok := false
		switch kind {
		case "len":
			ok = st.Same(a, h.gr["len"])
		case "ctx":
			ok = h.isCtx(st, a, src, nt, ctxT)
		case "src":
			if nt == 0 {
				ok = st.Eval(st.IsNil(a)) > 0
			} else {
				ok = a.K == ai.KIface && types.Identical(a.Typ, types.NewSlice(h.tokT)) && sameSlice(st, a.Args[0], src, nt)
			}
		case "engine":
			ok = a.K == ai.KIface && st.Same(a.Args[0], h.eng)
		case "text":
			ok = st.Same(a, lit)
		case "float":
			ok = isParsed(st, a, "ParseFloat", lit, types.Typ[types.Float64])
		case "int64":
			ok = isParsed(st, a, "ParseInt", lit, types.Typ[types.Int64])
		case "int":
			ok = isParsed(st, a, "ParseInt", lit, ai.TInt)
		}
		m.Check(st, ok, h.pos, "%s: the second argument is %s", what, a)
	}
	if d.recv != 0 && d.params >= 3 {
		m.Check(st, h.isCtx(st, arg(2), src, nt, ctxT), h.pos, "%s: the third argument is not the context of the tokens", what)
	}
	// the end
	end, _ := ai.StrVal(st.Ghost["end"])
	v := st.Ghost["value"]
	switch {
	case st.Ghost["pusherr"] != nil:
		asError(nil, nil)
	case end == "":
		m.Check(st, o.Panic == nil, h.pos, "%s: the function succeeds but the mark fails (%s)", what, o.Panic)
	case end == "error":
		asError(v, nil)
	case end == "text":
		asError(nil, v.Args[0])
	default:
		m.Check(st, o.Panic != nil && samePanic(st, o.Panic, v), h.pos, "%s: the panic %s leaves as %s", what, v, o.Panic)
	}
}

func isParsed(st *S, a *T, fn string, lit *T, to types.Type) bool {
	if a == nil {
		return false
	}
	var rt types.Type = types.Typ[types.Int64]
	if fn == "ParseFloat" {
		rt = types.Typ[types.Float64]
	}
	return st.Same(a, st.Convert(ai.App(fn, rt, lit), rt, to))
}

// sameSlice reports whether v has the n elements of src.
func sameSlice(st *S, v, src *T, n int) bool {
	if k, ok := ai.IntVal(st.Len(v)); !ok || k != int64(n) {
		return false
	}
	if n == 0 {
		return true
	}
	a, lo, _, _ := st.SliceParts(v)
	b, lo2, _, _ := st.SliceParts(src)
	return st.Same(a, b) && st.Same(lo, lo2)
}

func (h *markH) tokField(st *S, src *T, i int, f string) *T {
	arr, lo, _, _ := st.SliceParts(src)
	k, ft := fieldIdx(h.tokT, f)
	if k < 0 {
		h.c.Missing("field " + f + " of Token")
		return nil
	}
	return st.Load(ai.FieldAddr(ai.IndexAddr(arr, ai.AddK(lo, int64(i)), types.NewPointer(h.tokT)), k, types.NewPointer(ft)), ft)
}

// matcher is the matcher of the engine.
func (h *markH) matcher(st *S) *T {
	i, ft := fieldIdx(h.engT, "CompileRet")
	if i < 0 {
		h.c.Missing("field CompileRet of Engine")
		return nil
	}
	ret := st.Load(ai.FieldAddr(h.eng, i, types.NewPointer(ft)), ft)
	rt := ft.(*types.Pointer).Elem()
	i, ft = fieldIdx(rt, "Matcher")
	if i < 0 {
		h.c.Missing("field Matcher of CompileRet")
		return nil
	}
	return st.Load(ai.FieldAddr(ret, i, types.NewPointer(ft)), ft)
}

// isCtx reports whether a is the context of the tokens src.
func (h *markH) isCtx(st *S, a, src *T, nt int, ctxT types.Type) bool {
	if a == nil || st.Eval(st.IsNil(a)) >= 0 {
		return false
	}
	get := func(f string) *T {
		i, ft := fieldIdx(ctxT, f)
		if i < 0 {
			h.c.Missing("field " + f + " of Context")
			return ai.Int(0)
		}
		return st.Load(ai.FieldAddr(a, i, types.NewPointer(ft)), ft)
	}
	e := get("Engine")
	if e.K != ai.KIface || !st.Same(e.Args[0], h.eng) {
		return false
	}
	s := get("Src")
	if nt == 0 {
		return st.Eval(st.IsNil(s)) > 0 || s.K == ai.KIface && sameSlice(st, s.Args[0], src, 0)
	}
	if s.K != ai.KIface || !sameSlice(st, s.Args[0], src, nt) {
		return false
	}
	if !st.Same(get("Pos"), h.tokField(st, src, 0, "Pos")) {
		return false
	}
	if h.tokenEnd == nil {
		return true
	}
	arr, lo, _, _ := st.SliceParts(src)
	last := st.Load(ai.IndexAddr(arr, ai.AddK(lo, int64(nt-1)), types.NewPointer(h.tokT)), h.tokT)
	end := get("End")
	if end.K != ai.KApp || end.Name != "tokenEnd" || len(end.Args) != len(last.Args) {
		return false
	}
	for i := range last.Args {
		if !st.Same(end.Args[i], last.Args[i]) {
			return false
		}
	}
	return true
}

func (h *markH) scriptDispatch() {
	h.sfns = map[string]sfn{}
	sigs := map[string]types.Type{}
	var cases []dcase
	add := func(d dcase, f sfn) {
		sigs[d.mark] = nil
		h.sfns[d.mark] = f
		cases = append(cases, d)
	}
	i := 0
	for _, recv := range []byte{'s', 'i'} {
		for _, p := range []string{"", "_"} {
			for _, w := range []struct{ suffix, kind string }{{"", "text"}, {"Src", "src"}, {"Engine", "engine"}, {"Float", "float"}, {"Int", "int"}, {"Srcs", "text"}, {"SrcName", "text"}, {"IntEngine", "engine"}} {
				for n := 1; n <= 2; n++ {
					i++
					d := dcase{mark: fmt.Sprintf("%sm%s%s", p, letters(i), w.suffix), recv: recv, params: n, kind: w.kind}
					if n == 1 {
						d.kind = "none"
					}
					add(d, sfn{recv: recv, n: n})
					d.mark = fmt.Sprintf("%sM%s%s", p, letters(i), w.suffix)
					if n == 2 {
						d.kind = "len"
					}
					add(d, sfn{recv: recv, n: n})
				}
			}
		}
	}
	f64 := types.Typ[types.Float64]
	for n := 1; n <= 3; n++ {
		add(dcase{mark: "plain" + letters(n), params: n, kind: "none"}, sfn{n: n})
		var ps []types.Type
		for j := 0; j < n; j++ {
			ps = append(ps, f64)
		}
		for r := 0; r <= 1; r++ {
			var res []types.Type
			if r == 1 {
				res = append(res, f64)
			}
			g := h.sigRes(res, ps...).(*types.Signature)
			add(dcase{mark: "native" + letters(n*2+r), params: n, kind: "none", res: g.Results()}, sfn{n: n, goFn: g})
		}
	}
	if !h.build(sigs) {
		return
	}
	ip2 := h.object("ip2", h.ipT, nil)
	k, ft := fieldIdx(h.engT, "Interpreter")
	if k < 0 {
		h.c.Missing("field Interpreter of Engine")
		return
	}
	h.st.Store(ai.FieldAddr(h.eng, k, types.NewPointer(ft)), ip2, ft)
	anyRes := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewParam(token.NoPos, nil, "", ai.TAny)), false)
	h.onFn = func(st *S, name string, ci *ai.CallInfo) []ai.Outcome {
		if d := h.sfns[name]; d.goFn != nil {
			return h.handled(st, d.goFn)
		}
		return h.handled(st, anyRes)
	}
	n := 0
	sort.Slice(cases, func(i, j int) bool { return cases[i].mark < cases[j].mark })
	for _, d := range cases {
		if h.action(d.mark) == nil {
			continue
		}
		for nt := 0; nt <= 3; nt++ {
			if nt == 2 {
				continue
			}
			st := h.st.Clone()
			st.Ghost["calls"] = ai.Int(0)
			src := h.tokens(st, nt)
			what := desc("the mark %s of a function of a script with %d parameters and %d tokens", d.mark, d.params, nt)
			kind := d.kind
			if nt == 0 && (kind == "text" || kind == "float" || kind == "int") {
				kind = "bad"
			}
			for _, o := range h.m.CallValue(h.acts[d.mark], []*T{src, h.gr["g"]}, st) {
				n++
				h.judgeScript(o, d, kind, src, nt, ip2, what)
			}
		}
	}
	h.c.Case("the engine of scripts: %d marks, %d outcomes", len(cases), n)
}

// letters is a name for a number without capitals and digits.
func letters(i int) string {
	s := ""
	for ; i > 0; i /= 26 {
		s += string(rune('a' + i%26))
	}
	return s
}

func (h *markH) judgeScript(o ai.Outcome, d dcase, kind string, src *T, nt int, ip2 *T, what string) {
	st, m := o.St, h.m
	calls, _ := ai.IntVal(st.Ghost["calls"])
	if kind == "bad" || st.Ghost["parseerr"] != nil {
		m.Check(st, calls == 0, h.pos, "%s: the function is called although its argument cannot be supplied", what)
		m.Check(st, o.Panic != nil, h.pos, "%s: an argument cannot be supplied but the mark does not fail", what)
		return
	}
	if !m.Check(st, calls == 1, h.pos, "%s: the function is called %d times", what, calls) {
		return
	}
	arg := func(i int) *T {
		a := st.Ghost[fmt.Sprintf("arg%d", i)]
		return a
	}
	m.Check(st, arg(d.params-1) != nil && arg(d.params) == nil, h.pos, "%s: the function gets another number of arguments", what)
	boxed := func(a, v *T) bool { return a != nil && (a.K == ai.KIface && st.Same(a.Args[0], v) || st.Same(a, v)) }
	switch d.recv {
	case 's':
		m.Check(st, boxed(arg(0), h.stk), h.pos, "%s: the function gets %s instead of the stack", what, arg(0))
	case 'i':
		m.Check(st, boxed(arg(0), ip2), h.pos, "%s: the function gets %s instead of the interpreter in use", what, arg(0))
	default:
		for i := 0; i < d.params; i++ {
			m.Check(st, boxed(arg(i), h.operand(i)), h.pos, "%s: argument %d is %s instead of operand %d", what, i, arg(i), i)
		}
		want := fmt.Sprintf("pop%d;%s;", d.params, d.mark)
		if e, _ := ai.StrVal(st.Ghost["end"]); e == "" {
			want += "push;"
			p, v := st.Ghost["pushed"], st.Ghost["value"]
			if h.sfns[d.mark].goFn != nil && d.res.Len() == 0 {
				m.Check(st, p != nil && st.Eval(st.IsNil(p)) > 0, h.pos, "%s: the value pushed is %s instead of nil", what, p)
			} else {
				m.Check(st, p != nil && v != nil && boxed(p, v), h.pos, "%s: the value pushed is %s instead of the result %s", what, p, v)
			}
		}
		m.Check(st, theLog(st) == want, h.pos, "%s: the stack is used as %s instead of %s", what, theLog(st), want)
	}
	if d.recv != 0 && d.params == 2 {
		a := arg(1)
		val := a
		if a != nil && a.K == ai.KIface {
			val = a.Args[0]
		}
		var lit *T
		if nt > 0 {
			lit = h.tokField(st, src, 0, "Literal")
		}
		ok := false
		switch kind {
		case "len":
			ok = st.Same(val, h.gr["len"])
		case "src":
			if nt == 0 {
				ok = st.Eval(st.IsNil(a)) > 0
			} else {
				ok = a.K == ai.KIface && types.Identical(a.Typ, types.NewSlice(h.tokT)) && sameSlice(st, val, src, nt)
			}
		case "engine":
			ok = st.Same(val, h.eng)
		case "text":
			ok = a.K == ai.KIface && types.Identical(a.Typ, ai.TString) && st.Same(val, lit)
		case "float":
			ok = a.K == ai.KIface && types.Identical(a.Typ, types.Typ[types.Float64]) && isParsed(st, val, "ParseFloat", lit, types.Typ[types.Float64])
		case "int":
			ok = a.K == ai.KIface && types.Identical(a.Typ, ai.TInt) && st.Same(val, ai.App("Atoi", ai.TInt, lit))
		}
		m.Check(st, ok, h.pos, "%s: the second argument is %s", what, a)
	}
	end, _ := ai.StrVal(st.Ghost["end"])
	v := st.Ghost["value"]
	if end == "" {
		m.Check(st, o.Panic == nil, h.pos, "%s: the function succeeds but the mark fails (%s)", what, o.Panic)
		return
	}
	if o.Panic != nil && samePanic(st, o.Panic, v) {
		return
	}
	// or an error that keeps it
	m.Check(st, o.Panic != nil && o.Panic.K == ai.KIface && (end == "error" || end == "text"), h.pos, "%s: the panic %s leaves as %s", what, v, o.Panic)
}

// errorText checks the text of a runtime error.
func errorText(c *Ctx) {
	rtErr, tokT := c.Type(relInterp, "RuntimeError"), c.Type("tpl", "Token")
	if rtErr == nil || tokT == nil {
		return
	}
	fn := ai.MethodOf(c.P.Prog, types.NewPointer(rtErr), c.P.Pkg(relInterp).Pkg, "Error")
	if fn == nil {
		c.Missing("method Error of RuntimeError")
		return
	}
	m := c.Machine()
	st := c.P.Base("tpl", relInterp, relUtil)
	e := ai.NewObj("e", rtErr)
	set := func(f string, v func(t types.Type) *T) *T {
		i, ft := fieldIdx(rtErr, f)
		if i < 0 {
			c.Missing("field " + f + " of RuntimeError")
			return nil
		}
		x := v(ft)
		st.Store(ai.FieldAddr(e, i, types.NewPointer(ft)), x, ft)
		return x
	}
	st.Store(e, ai.Zero(rtErr), rtErr)
	src := set("Src", func(t types.Type) *T { return ai.FreshVal(st, "src", t) })
	cause := set("Err", func(t types.Type) *T { return ai.NewSym("cause", t) })
	st.Assume(ai.App("isnil", ai.TBool, cause), false)
	set("Ctx", func(t types.Type) *T {
		x := ai.NewSym("ctx", t)
		st.Assume(ai.App("isnil", ai.TBool, x), false)
		return x
	})
	file, line := ai.NewSym("file", ai.TString), ai.NewSym("line", ai.TInt)
	text := ai.NewSym("cause text", ai.TString)
	uses := func(t *T) bool { return ai.Contains(t, cause) || ai.Contains(t, text) }
	m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Method != nil && ci.Method.Name() == "Error" && ci.Recv == cause {
			return []ai.Outcome{{St: st, Ret: text}}, true
		}
		if ci.Fn == nil || ci.Fn.Pkg == nil {
			return nil, false
		}
		if ci.Fn.Pkg == c.P.Pkg("tpl") && ci.Fn.Name() == "FileLine" && ci.Fn.Signature.Recv() == nil {
			m.Check(st, st.Same(ci.Args[0], src), ci.Pos(), "a runtime error is positioned at something else than its source")
			return []ai.Outcome{{St: st, Ret: ai.Tuple(file, line)}}, true
		}
		if ci.Fn.Pkg.Pkg.Path() == "fmt" && (ci.Fn.Name() == "Sprintf" || ci.Fn.Name() == "Sprint" || ci.Fn.Name() == "Sprintln") {
			// the text holds its arguments
			last := ci.Args[len(ci.Args)-1]
			parts := []*T{}
			if len(ci.Args) > 1 {
				parts = append(parts, ci.Args[0])
			}
			if n, ok := ai.IntVal(st.Len(last)); ok {
				arr, lo, _, _ := st.SliceParts(last)
				for i := int64(0); i < n; i++ {
					parts = append(parts, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(ai.TAny)), ai.TAny))
				}
			}
			return []ai.Outcome{{St: st, Ret: ai.App("text", ai.TString, parts...)}}, true
		}
		return nil, false
	}
	for _, o := range m.Run(fn, []*T{e}, nil, st) {
		if !m.Check(o.St, o.Panic == nil && o.Ret != nil, fn.Pos(), "the text of a runtime error panics") {
			continue
		}
		m.Check(o.St, uses(o.Ret), fn.Pos(), "the text of a runtime error does not name its cause (%s)", o.Ret)
		m.Check(o.St, ai.Contains(o.Ret, line), fn.Pos(), "the text of a runtime error does not name the line (%s)", o.Ret)
		m.Check(o.St, ai.Contains(o.Ret, file) || o.St.Eval(o.St.Eq(file, ai.Str(""))) > 0, fn.Pos(), "the text of a runtime error does not name the file (%s)", o.Ret)
	}
	c.Absorb("RuntimeError.Error", m)
}
