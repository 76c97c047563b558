package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// runH interprets a whole matching run: a symbolic scanner delivers any
// sequence of tokens and error reports, a symbolic grammar behaves in any way.
type runH struct {
	*matchH
	scanner, init *T
	mode          *T
	matcher       *T
	srcWant       *T // source bytes (or nil)
	grammar_      *T
	Tried, Ok     int
	eof           int64
	part          string // C09, C10 or C11
	method        string
	doc           *T // token source instead of text
}

func (h *runH) want(p string) bool { return h.part == p }

// chk checks an obligation of one property.
func (h *runH) chk(prop string, st *S, ok bool, pos token.Pos, f string, a ...interface{}) bool {
	if h.part != prop {
		return ok
	}
	return h.m.Check(st, ok, pos, "%s: "+f, append([]interface{}{h.what}, a...)...)
}

func setField(st *S, obj *T, t types.Type, name string, v *T) {
	i, ft := fieldIdx(t, name)
	if i < 0 {
		panic("field " + t.String() + "." + name + " is missing")
	}
	st.Store(ai.FieldAddr(obj, i, types.NewPointer(ft)), v, ft)
}

func getField(st *S, obj *T, t types.Type, name string) *T {
	i, ft := fieldIdx(t, name)
	if i < 0 {
		panic("field " + t.String() + "." + name + " is missing")
	}
	return st.Load(ai.FieldAddr(obj, i, types.NewPointer(ft)), ft)
}

func newRunH(c *Ctx, part, what string, withInit bool) (*runH, *S) {
	h := &runH{matchH: newMatchH(c, what), part: part}
	mT := c.Type("tpl", "Matcher")
	tT := c.Type("tpl", "Tokener")
	st := c.P.Base("tpl")
	h.eof = constVal(c, "tpl", "EOF")
	h.scanner = ai.NewSym("scanner", tT)
	st.Assume(ai.App("isnil", ai.TBool, h.scanner), false)
	h.grammar_ = h.grammar(st, "G")
	_, ft := fieldIdx(mT, "Init")
	_, mt := fieldIdx(mT, "ScanMode")
	h.mode = ai.NewSym("mode", mt)
	h.init = ai.Nil(ft)
	if withInit {
		h.init = funcSym(st, "init", ft)
	}
	h.matcher = ai.NewObj("matcher", mT)
	st.Store(h.matcher, ai.Zero(mT), mT)
	setField(st, h.matcher, mT, "Grammar", h.grammar_)
	setField(st, h.matcher, mT, "Scanner", h.scanner)
	setField(st, h.matcher, mT, "ScanMode", h.mode)
	setField(st, h.matcher, mT, "Init", h.init)
	startGhost(st)
	st.Ghost["count"] = ai.Int(0)
	st.Ghost["inits"] = ai.Int(0) // scanner initialisations
	st.Ghost["hooks"] = ai.Int(0) // init hook calls
	st.Ghost["eof"] = ai.Bool(false)
	st.Ghost["pending"] = ai.Bool(false)
	st.Ghost["lexErr"] = ai.Bool(false)
	st.Ghost["tries"] = ai.Int(0)
	st.Ghost["okN"] = ai.Int(0)
	st.Ghost["total"] = ai.Int(0)
	st.Ghost["handler"] = ai.Nil(ai.TAny)
	st.Ghost["seq"] = ai.SliceT(h.srcT, ai.Nil(types.NewPointer(types.NewArray(h.tokT, -1))), ai.Int(0), ai.Int(0), ai.Int(0))
	h.m.Hook = h.events_
	h.m.OnAppend = h.appended
	return h, st
}

func (h *runH) appended(m *ai.Machine, st *S, a, b, r *T, in ssa.Instruction) {
	if !types.Identical(r.Typ, h.srcT) && !(r.Typ != nil && types.Identical(r.Typ.Underlying(), h.srcT)) {
		return
	}
	arr, lo, n, _ := st.SliceParts(a)
	sarr, slo, sn, _ := st.SliceParts(st.Ghost["seq"])
	same := st.EQ(n, sn) && (st.EQ(n, ai.Int(0)) || st.Same(arr, sarr) && st.EQ(lo, slo))
	barr, blo, bn, _ := st.SliceParts(b)
	one := st.EQ(bn, ai.Int(1)) && st.Ghost["last"] != nil && st.Same(st.Load(ai.IndexAddr(barr, blo, types.NewPointer(h.tokT)), h.tokT), st.Ghost["last"])
	h.chk("C11", st, same && one && gTrue(st, "pending"), in.Pos(), "something other than the token just scanned is added to the tokens, or it is not added at their end")
	st.Ghost["seq"] = r
	st.Ghost["pending"] = ai.Bool(false)
}

func (h *runH) report(m *ai.Machine, st *S, ci *ai.CallInfo, ret func(*S) *T) []ai.Outcome {
	hd := st.Ghost["handler"]
	if hd.K != ai.KClosure && hd.K != ai.KFunc {
		return nil
	}
	sig := hd.Fn.Signature
	p, msg := ai.FreshVal(st, "errPos", sig.Params().At(0).Type()), ai.FreshVal(st, "errMsg", sig.Params().At(1).Type())
	var outs []ai.Outcome
	for _, o := range m.CallValue(hd, []*T{p, msg}, st) {
		if o.Panic != nil {
			outs = append(outs, o)
			continue
		}
		if !gTrue(o.St, "lexErr") {
			o.St.Ghost["errPos1"], o.St.Ghost["errMsg1"] = p, msg
		}
		o.St.Ghost["lexErr"] = ai.Bool(true)
		o.St.Ghost["errPos"], o.St.Ghost["errMsg"] = p, msg
		outs = append(outs, ai.Outcome{St: o.St, Ret: ret(o.St)})
	}
	return outs
}

func (h *runH) events_(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	pos := ci.Pos()
	if ci.FnTerm != nil && ci.FnTerm == h.init {
		h.events++
		h.chk("C10", st, st.EQ(st.Ghost["hooks"], ai.Int(0)), pos, "the init hook runs more than once in a run")
		h.chk("C10", st, st.EQ(st.Ghost["tries"], ai.Int(0)), pos, "the init hook runs after the grammar was tried")
		h.chk("C11", st, !gTrue(st, "lexErr"), pos, "the init hook runs although the source has a lexical error")
		st.Ghost["hooks"] = ai.AddK(st.Ghost["hooks"], 1)
		return []ai.Outcome{{St: st}}, true
	}
	if ci.Method == nil || ci.Recv == nil {
		return nil, false
	}
	switch {
	case ci.Recv == h.scanner && ci.Method.Name() == "Init":
		h.events++
		h.chk("C10", st, st.EQ(st.Ghost["inits"], ai.Int(0)), pos, "the scanner is initialised more than once in a run")
		h.chk("C10", st, h.doc == nil, pos, "the scanner is initialised although tokens are given")
		if len(ci.Args) == 4 {
			h.chk("C10", st, h.srcWant == nil || ci.Args[1] == h.srcWant || st.Same(ci.Args[1], h.srcWant), pos, "the scanner is initialised with another source (%s)", ci.Args[1])
			h.chk("C10", st, st.Same(ci.Args[3], h.mode), pos, "the scanner is initialised with another scan mode (%s)", ci.Args[3])
			hd := ci.Args[2]
			h.chk("C11", st, hd.K == ai.KClosure || hd.K == ai.KFunc, pos, "the scanner gets no error handler")
			st.Ghost["handler"] = hd
		}
		st.Ghost["inits"] = ai.AddK(st.Ghost["inits"], 1)
		s2 := st.Clone()
		outs := []ai.Outcome{{St: st}}
		return append(outs, h.report(m, s2, ci, func(*S) *T { return nil })...), true
	case ci.Recv == h.scanner && ci.Method.Name() == "Scan":
		h.events++
		h.chk("C10", st, st.EQ(st.Ghost["inits"], ai.Int(1)), pos, "the scanner is used in a run without being initialised")
		h.chk("C11", st, !gTrue(st, "pending"), pos, "a scanned token is dropped")
		h.chk("C11", st, !gTrue(st, "eof"), pos, "scanning goes on after the end of the source")
		mk := func(st *S, eof bool) *T {
			tok := ai.FreshVal(st, "tok", h.tokT)
			i, ft := fieldIdx(h.tokT, "Kind")
			k := st.Field(tok, i, ft)
			st.Assume(st.Eq(k, ai.Int(h.eof)), eof)
			st.Ghost["eof"] = ai.Bool(eof)
			st.Ghost["last"] = tok
			st.Ghost["pending"] = ai.Bool(true)
			return tok
		}
		var outs []ai.Outcome
		for _, eof := range []bool{false, true} {
			s2, s3 := st.Clone(), st.Clone()
			outs = append(outs, ai.Outcome{St: s2, Ret: mk(s2, eof)})
			outs = append(outs, h.report(m, s3, ci, func(st *S) *T { return mk(st, eof) })...)
		}
		return outs, true
	case ci.Recv == h.scanner:
		return nil, false
	case ci.Method.Name() == "Match" && types.Identical(ci.Method.Type().(*types.Signature).Recv().Type(), h.gT):
		h.events++
		arr, lo, n, _ := st.SliceParts(ci.Args[0])
		h.chk("C09", st, st.Same(ci.Recv, h.grammar_), pos, "another grammar is tried")
		h.chk("C09", st, st.EQ(st.Ghost["tries"], ai.Int(0)), pos, "the grammar is tried more than once")
		hooks := int64(0)
		if h.init.K != ai.KNil {
			hooks = 1
		}
		h.chk("C10", st, st.EQ(st.Ghost["hooks"], ai.Int(hooks)), pos, "the grammar is tried without running the init hook first")
		if h.doc == nil {
			h.chk("C11", st, !gTrue(st, "lexErr"), pos, "the grammar is tried although the source has a lexical error")
			h.chk("C11", st, gTrue(st, "eof"), pos, "the grammar is tried before the source was scanned to its end")
			sarr, slo, sn, _ := st.SliceParts(st.Ghost["seq"])
			h.chk("C11", st, !gTrue(st, "pending") && st.EQ(n, ai.AddK(sn, -1)) && (st.Same(arr, sarr) && st.EQ(lo, slo)), pos,
				"the grammar does not get exactly the tokens before the end of the source, with the end-of-file token kept behind them (%s of %s)", n, sn)
		} else {
			h.chk("C09", st, st.Same(ci.Args[0], h.doc), pos, "the grammar does not get exactly the given tokens")
		}
		st.Ghost["tries"] = ai.AddK(st.Ghost["tries"], 1)
		st.Ghost["total"] = n
		st.Ghost["arr"], st.Ghost["lo"] = arr, lo
		n1 := ai.NewSym("n1", ai.TInt)
		st.Assume(ai.GE0(ai.LinOf(n1)), true)
		st.Assume(ai.GE0(ai.LinOf(ai.Sub(n, n1))), true)
		sf, sp := st.Clone(), st.Clone()
		st.Ghost["okN"] = n1
		err := ai.NewSym("grammarErr", ai.TError)
		sf.Assume(ai.App("isnil", ai.TBool, err), false)
		sf.Ghost["failed"] = ai.Bool(true)
		sf.Ghost["failErr"] = err
		p := ai.NewSym("childPanic", ai.TAny)
		sp.Assume(ai.App("isnil", ai.TBool, p), false)
		sp.Ghost["childPanic"] = p
		return []ai.Outcome{{St: st, Ret: ai.Tuple(n1, ai.Nil(ai.TError))}, {St: sf, Ret: ai.Tuple(n1, err)}, {St: sp, Panic: p}}, true
	}
	return nil, false
}

// finish judges the result of a run. next is nil for exact matching.
func (h *runH) finish(o ai.Outcome, exact bool) {
	st := o.St
	if cp := st.Ghost["childPanic"]; cp.K != ai.KNil {
		h.chk("C09", st, o.Panic == cp, token.NoPos, "a fail-fast abort of the grammar is swallowed or replaced")
		return
	}
	if !h.chk("C09", st, o.Panic == nil, token.NoPos, "the run panics by itself") {
		return
	}
	var next *T
	err := o.Ret
	if !exact {
		next, err = ret2(o)
	}
	if gTrue(st, "lexErr") {
		ok := errNotNil(st, err)
		h.chk("C11", st, ok, token.NoPos, "a lexical error of the source is not reported")
		if dt := st.KnownType(err); ok && dt != nil {
			if n := namedOf(dt); n != nil && n.Obj().Name() == "TokenizeError" {
				x := ai.Unbox(err, dt)
				// the first or the last of the errors that were reported
				msg, pos := getField(st, x, n, "Msg"), getField(st, x, n, "Pos")
				first := st.Same(msg, st.Ghost["errMsg1"]) && st.Same(pos, st.Ghost["errPos1"])
				last := st.Same(msg, st.Ghost["errMsg"]) && st.Same(pos, st.Ghost["errPos"])
				h.chk("C11", st, first || last, token.NoPos, "the error does not carry the message and the position of the scanner")
			} else {
				h.chk("C11", st, false, token.NoPos, "a lexical error is reported as %s", dt)
			}
		}
		h.chk("C11", st, st.EQ(st.Ghost["tries"], ai.Int(0)) && st.EQ(st.Ghost["hooks"], ai.Int(0)), token.NoPos, "the grammar or the init hook ran although the source has a lexical error")
		return
	}
	if !st.EQ(st.Ghost["tries"], ai.Int(1)) {
		h.chk("C09", st, false, token.NoPos, "the run ends without trying the grammar")
		return
	}
	h.Tried++
	if gTrue(st, "failed") {
		h.chk("C09", st, errNotNil(st, err) && st.Same(err, st.Ghost["failErr"]), token.NoPos, "the failure of the grammar is not returned")
		return
	}
	n, tot := st.Ghost["okN"], st.Ghost["total"]
	if h.part == "C12" {
		pointsInside(h.c, h.m, st, h.what, err)
	}
	if exact {
		switch {
		case errNil(st, err):
			h.chk("C09", st, st.EQ(n, tot), token.NoPos, "left-over tokens are accepted (%s of %s consumed)", n, tot)
			h.Ok++
		case errNotNil(st, err):
			h.chk("C09", st, st.Lin.EntailsNE0(ai.LinOf(ai.Sub(n, tot))), token.NoPos, "a source that is matched completely is rejected")
		default:
			h.chk("C09", st, false, token.NoPos, "the verdict does not depend on the left-over tokens")
		}
		return
	}
	h.Ok++
	h.chk("C09", st, errNil(st, err), token.NoPos, "the grammar matched but the match fails")
	if next != nil {
		arr, lo, m, _ := st.SliceParts(next)
		h.chk("C09", st, st.EQ(m, ai.Sub(tot, n)) && (st.EQ(m, ai.Int(0)) || st.Same(arr, st.Ghost["arr"]) && st.EQ(lo, ai.Add(st.Ghost["lo"], n))), token.NoPos,
			"the tokens returned are not those that were not consumed")
	}
}

func (h *runH) done() {
	h.c.Must(h.Tried > 0 && h.Ok > 0, token.NoPos, h.what, "no run reaches the grammar")
	h.c.Case("%s: %d runs that try the grammar, %d events", h.what, h.Tried, h.events)
	h.c.Absorb(h.what, h.m)
}

func checkRuns(c *Ctx, part string) {
	bytesT := types.NewSlice(types.Typ[types.Byte])
	for _, withInit := range []bool{true, false} {
		if !withInit && part != "C09" && part != "C10" {
			continue
		}
		suffix := ""
		if !withInit {
			suffix = " without an init hook"
		}
		fname := ai.NewSym("fname", ai.TString)
		// Match
		h, st := newRunH(c, part, "Match"+suffix, withInit)
		h.srcWant = ai.NewSym("source", bytesT)
		for _, o := range invokeMethod(h.m, st, h.matcher, nil, "Match", h.srcWant, fname) {
			h.finish(o, false)
		}
		h.done()
		// MatchExactly
		h, st = newRunH(c, part, "MatchExactly"+suffix, withInit)
		h.srcWant = ai.NewSym("source", bytesT)
		for _, o := range invokeMethod(h.m, st, h.matcher, nil, "MatchExactly", h.srcWant, fname) {
			h.finish(o, true)
		}
		h.done()
		// Eval
		h, st = newRunH(c, part, "Eval"+suffix, withInit)
		text := ai.NewSym("text", ai.TString)
		h.srcWant = st.Convert(text, ai.TString, bytesT)
		for _, o := range invokeMethod(h.m, st, h.matcher, nil, "Eval", text) {
			h.finish(o, true)
		}
		h.done()
		// EvalSub
		for _, kind := range []string{"tokens", "bytes", "string", "other"} {
			h, st := newRunH(c, part, "EvalSub of "+kind+suffix, withInit)
			name := ai.NewSym("rule", ai.TString)
			var src *T
			switch kind {
			case "tokens":
				h.doc = ai.NewSym("doc", h.srcT)
				src = ai.Iface(h.srcT, h.doc, nil)
			case "bytes":
				h.srcWant = ai.NewSym("source", bytesT)
				src = ai.Iface(bytesT, h.srcWant, nil)
			case "string":
				h.srcWant = st.Convert(text, ai.TString, bytesT)
				src = ai.Iface(ai.TString, text, nil)
			case "other":
				src = ai.Iface(ai.TInt, ai.NewSym("x", ai.TInt), nil)
			}
			crT := c.Type("tpl", "CompileRet")
			_, gmT := fieldIdx(crT, "Grammars")
			gm := ai.NewObj("grammars", gmT)
			st.MapStore(gm, name, h.grammar_, gmT)
			cr := ai.NewObj("ret", crT)
			st.Store(cr, ai.Zero(crT), crT)
			setField(st, cr, crT, "Matcher", h.matcher)
			setField(st, cr, crT, "Grammars", gm)
			for _, o := range invokeMethod(h.m, st, cr, nil, "EvalSub", name, src) {
				if kind == "other" {
					h.chk("C09", o.St, o.Panic == nil && errNotNil(o.St, o.Ret) && o.St.EQ(o.St.Ghost["tries"], ai.Int(0)), token.NoPos, "a source of an unsupported type is not rejected")
					h.Ok, h.Tried = 1, 1
					continue
				}
				h.finish(o, true)
			}
			h.done()
			if part == "C09" && kind == "tokens" {
				// an unknown rule
				h, st := newRunH(c, part, "EvalSub of an unknown rule", withInit)
				gm := ai.NewObj("grammars", gmT)
				st.MapStore(gm, ai.Str("other"), h.grammar_, gmT)
				st.Store(cr, ai.Zero(crT), crT)
				setField(st, cr, crT, "Matcher", h.matcher)
				setField(st, cr, crT, "Grammars", gm)
				for _, o := range invokeMethod(h.m, st, cr, nil, "EvalSub", ai.Str("missing"), src) {
					h.chk("C09", o.St, o.Panic == nil && errNotNil(o.St, o.Ret) && o.St.EQ(o.St.Ghost["tries"], ai.Int(0)), token.NoPos, "an unknown rule is evaluated")
				}
				c.Absorb(h.what, h.m)
			}
		}
	}
	if part == "C09" {
		h, st := newRunH(c, part, "Match without a grammar", true)
		mT := c.Type("tpl", "Matcher")
		setField(st, h.matcher, mT, "Grammar", ai.Nil(h.gT))
		for _, o := range invokeMethod(h.m, st, h.matcher, nil, "Match", ai.NewSym("source", bytesT), ai.NewSym("fname", ai.TString)) {
			_, err := ret2(o)
			h.chk("C09", o.St, o.Panic == nil && (gTrue(o.St, "lexErr") || errNotNil(o.St, err)), token.NoPos, "it succeeds")
		}
		c.Absorb(h.what, h.m)
	}
}

// checkScannerReset: initialising a scanner overwrites all scanning state.
func checkScannerReset(c *Ctx) {
	for _, name := range []string{"Scanner", "AutoKwScanner"} {
		t := c.Type("tpl", name)
		fn := c.Method("tpl", name, "Init")
		base := c.Type("tpl", "Scanner")
		if t == nil || fn == nil || base == nil {
			continue
		}
		m := c.Machine()
		st := c.P.Base("tpl")
		obj := ai.NewSym("old", types.NewPointer(t))
		st.Assume(ai.App("isnil", ai.TBool, obj), false)
		args := []*T{obj}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			args = append(args, ai.FreshVal(st, fn.Signature.Params().At(i).Name(), paramType(fn, i)))
		}
		st.Assume(ai.App("isnil", ai.TBool, args[1]), false)
		n := 0
		for _, o := range m.Run(fn, args, nil, st) {
			if o.Panic != nil {
				continue
			}
			n++
			sb := obj
			if name != "Scanner" {
				i, ft := fieldIdx(t, "Scanner")
				if i < 0 {
					continue
				}
				sb = ai.FieldAddr(obj, i, types.NewPointer(ft))
			}
			bs := base.Underlying().(*types.Struct)
			for i := 0; i < bs.NumFields(); i++ {
				f := bs.Field(i)
				a := ai.FieldAddr(sb, i, types.NewPointer(f.Type()))
				v := o.St.Load(a, f.Type())
				m.Check(o.St, !ai.Contains(v, obj), fn.Pos(), "after Init the scanner field %s may still hold the value of an earlier source (%s)", f.Name(), v)
			}
		}
		c.Must(n > 0, fn.Pos(), name+".Init", "never returns")
		c.Case("%s.Init over an arbitrary earlier scanner state: %d return paths", name, n)
		c.Absorb(name+".Init", m)
	}
}

func init() {
	register("C09", "Abstract interpretation of whole runs (text and token sources, with and without init hook) with a symbolic scanner that delivers any number of tokens and a symbolic grammar that matches any part, fails or aborts; the verdict is compared with what the grammar did on every path.", func(c *Ctx) { checkRuns(c, "C09") })
	register("C10", "Abstract interpretation of whole runs: exactly one scanner initialisation with this source and mode before the first token, exactly one init hook call before the grammar; and of the scanner's initialisation over an arbitrary earlier state: every field of the scanning state is overwritten with a value independent of it.", func(c *Ctx) { checkRuns(c, "C10"); checkScannerReset(c) })
	register("C11", "Abstract interpretation of whole runs with a symbolic scanner: the token slice is followed through every append, lexical errors are reported through the handler at any point, and what the grammar gets and what the caller gets is checked on every path.", func(c *Ctx) { checkRuns(c, "C11") })
}
