package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// evalPure runs a function on constants and yields its single constant result.
func evalPure(c *Ctx, fn *ssa.Function, args ...*T) (*T, *T) {
	m := c.Machine()
	m.Unroll = 2000
	outs := m.Run(fn, args, nil, c.P.Base("tpl"))
	c.Absorb(fn.Name(), m)
	if len(outs) != 1 {
		return nil, nil
	}
	return outs[0].Ret, outs[0].Panic
}

func uintT(n int64) *T { return ai.ConstT(constant.MakeInt64(n), types.Typ[types.Uint]) }

// newScannerObj makes a scanner whose contents are unknown.
func newScannerObj(c *Ctx, name string) (*T, types.Type) {
	t := c.Type("tpl", name)
	return ai.NewSym("scanner", types.NewPointer(t)), t
}

// ---- S06

func checkTokenTables(c *Ctx) {
	t2l, l2t, tlen := c.Func("tpl", "Token2Lit"), c.Func("tpl", "Lit2Token"), c.Func("tpl", "TokenLen")
	ttol, ltot := c.Method("tpl", "Scanner", "Ttol"), c.Method("tpl", "Scanner", "Ltot")
	end := c.Method("tpl", "Token", "End")
	if t2l == nil || l2t == nil || tlen == nil || ttol == nil || ltot == nil || end == nil {
		return
	}
	user := constVal(c, "tpl", "USER_TOKEN_BEGIN")
	illegal := constVal(c, "tpl", "ILLEGAL")
	named := map[int64]string{}
	for _, tc := range tokenConsts(c) {
		named[tc.val] = tc.name
	}
	spell := map[string]int64{}
	sc, scT := newScannerObj(c, "Scanner")
	_ = scT
	want := map[int64]int64{}
	nop := 0
	for k := int64(0); k < user; k++ {
		r, pan := evalPure(c, t2l, uintT(k))
		s, ok := "", false
		if r != nil {
			s, ok = ai.StrVal(r)
		}
		name := named[k]
		if pan != nil || !ok {
			if name != "" {
				c.Must(false, t2l.Pos(), "", "kind %s (%d) has no constant spelling", name, k)
			}
			continue
		}
		if name == "" {
			name = fmt.Sprintf("kind %d", k)
		}
		if s == "" {
			c.Must(named[k] == "", t2l.Pos(), "", "the spelling of %s is empty", name)
			continue
		}
		old, dup := spell[s]
		c.Must(!dup, t2l.Pos(), "", "the kinds %d and %d share the spelling %s", old, k, s)
		spell[s] = k
		back, _ := evalPure(c, l2t, ai.Str(s))
		bk, okB := int64(-1), false
		if back != nil {
			bk, okB = ai.IntVal(back)
		}
		c.Must(okB && bk == k, l2t.Pos(), "", "the spelling %s of %s converts to kind %d", s, name, bk)
		ln := int64(0)
		if len(s) > 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
			ln = int64(len(s) - 2)
			nop++
		}
		want[k] = ln
		l, _ := evalPure(c, tlen, uintT(k))
		lv, okL := int64(-1), false
		if l != nil {
			lv, okL = ai.IntVal(l)
		}
		c.Must(okL && lv == ln, tlen.Pos(), "", "the length of %s (%s) is %d instead of %d", name, s, lv, ln)
		for _, x := range []struct {
			fn   *ssa.Function
			arg  *T
			want *T
			what string
		}{{ttol, uintT(k), ai.Str(s), "Ttol"}, {ltot, ai.Str(s), uintT(k), "Ltot"}} {
			m := c.Machine()
			m.Unroll = 2000
			st := c.P.Base("tpl")
			st.Assume(ai.App("isnil", ai.TBool, sc), false)
			n := 0
			for _, o := range m.Run(x.fn, []*T{sc, x.arg}, nil, st) {
				n++
				m.Check(o.St, o.Panic == nil && o.Ret != nil && o.St.EQ(o.Ret, x.want), x.fn.Pos(), "Scanner.%s(%s) is not %s", x.what, x.arg, x.want)
			}
			c.Must(n > 0, x.fn.Pos(), "", "Scanner.%s does not return", x.what)
			c.Absorb("Scanner."+x.what, m)
		}
	}
	c.Must(nop > 0, t2l.Pos(), "", "no operator has a spelling")
	c.Case("%d spellings of kinds below %d, %d of them operators: there and back, unique, length", len(spell), user, nop)
	// every other spelling is illegal: what is not found is
	for _, fn := range []*ssa.Function{l2t, ltot} {
		m := c.Machine()
		st := c.P.Base("tpl")
		lit := ai.NewSym("lit", ai.TString)
		args := []*T{lit}
		if fn == ltot {
			st.Assume(ai.App("isnil", ai.TBool, sc), false)
			args = []*T{sc, lit}
		}
		found := 0
		m.OnLoad = func(m *ai.Machine, s *S, a *T, in ssa.Instruction) {
			if _, ok := in.(*ssa.Lookup); ok && a.K == ai.KMapCell {
				m.Check(s, s.Same(a.Args[1], lit), in.Pos(), "another spelling than the given one is looked up")
				found++
			}
		}
		n, miss := 0, 0
		for _, o := range m.Run(fn, args, nil, st) {
			n++
			m.Check(o.St, o.Panic == nil, fn.Pos(), "a spelling makes it panic")
			if o.Panic == nil {
				if k, ok := ai.IntVal(o.Ret); ok {
					m.Check(o.St, k == illegal, fn.Pos(), "a spelling that is not in the table has kind %d", k)
					miss++
				} else {
					m.Check(o.St, o.Ret.K == ai.KSym, fn.Pos(), "the kind of a spelling is not the one of the table")
				}
			}
		}
		c.Must(n > 0 && found > 0 && miss > 0, fn.Pos(), fn.Name(), "it does not look the spelling up (%d paths)", n)
		c.Case("%s of an arbitrary spelling: %d paths, %d for spellings that are not in the table", fn.Name(), n, miss)
		c.Absorb(fn.Name(), m)
	}
	// the end of a token
	tokT := c.Type("tpl", "Token")
	_, kt := fieldIdx(tokT, "Kind")
	_, pt := fieldIdx(tokT, "Pos")
	run := func(kind *T, lit *T, wantLen func(*S) *T, what string) {
		m := c.Machine()
		m.Unroll = 2000
		st := c.P.Base("tpl")
		tok := ai.NewObj("tok", tokT)
		st.Store(tok, ai.Zero(tokT), tokT)
		pos := ai.FreshVal(st, "pos", pt)
		setField(st, tok, tokT, "Kind", kind)
		setField(st, tok, tokT, "Pos", pos)
		setField(st, tok, tokT, "Literal", lit)
		if lit.K != ai.KConst {
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(st.Len(lit), -1))), true)
		}
		n := 0
		for _, o := range m.Run(end, []*T{tok}, nil, st) {
			n++
			m.Check(o.St, o.Panic == nil && o.St.EQ(o.Ret, ai.Add(pos, wantLen(o.St))), end.Pos(), "the end of %s is not its position plus the length of its text (%s)", what, o.Ret)
		}
		c.Must(n > 0, end.Pos(), "Token.End", "it does not return")
		c.Absorb("Token.End", m)
	}
	lit := ai.NewSym("literal", ai.TString)
	run(ai.NewSym("kind", kt), lit, func(s *S) *T { return s.Len(lit) }, "a token with a literal")
	for k, n := range want {
		n := n
		run(uintT(k), ai.Str(""), func(*S) *T { return ai.Int(n) }, fmt.Sprintf("the operator of kind %d", k))
	}
	c.Case("Token.End of a token with an arbitrary literal, and of each of %d kinds without one", len(want))
	c.Rule("spelling and kind are inverse on the whole table; TokenLen and Token.End follow the spelling")
}

// ---- S08

// kwH is an auto-keyword scanner with unknown keywords.
type kwH struct {
	c        *Ctx
	m        *ai.Machine
	sc       *T
	t        types.Type
	tokens   *T
	keywords *T
	kwT      types.Type
}

func newKw(c *Ctx, nilMap bool) (*kwH, *S) {
	h := &kwH{c: c, m: c.Machine()}
	h.t = c.Type("tpl", "AutoKwScanner")
	st := c.P.Base("tpl")
	h.sc = ai.NewObj("scanner", h.t)
	st.Store(h.sc, ai.FreshVal(st, "old", h.t), h.t)
	_, tt := fieldIdx(h.t, "tokens")
	_, h.kwT = fieldIdx(h.t, "keywords")
	if tt == nil || h.kwT == nil {
		panic("fields tokens and keywords of AutoKwScanner are missing")
	}
	h.tokens = ai.NewSym("tokens", tt)
	h.keywords = ai.Nil(h.kwT)
	if !nilMap {
		h.keywords = ai.NewSym("keywords", h.kwT)
		st.Assume(ai.App("isnil", ai.TBool, h.keywords), false)
	}
	setField(st, h.sc, h.t, "tokens", h.tokens)
	setField(st, h.sc, h.t, "keywords", h.keywords)
	return h, st
}

func checkAutoKw(c *Ctx) {
	ltot, ttol := c.Method("tpl", "AutoKwScanner", "Ltot"), c.Method("tpl", "AutoKwScanner", "Ttol")
	scan, ini := c.Method("tpl", "AutoKwScanner", "Scan"), c.Method("tpl", "AutoKwScanner", "Init")
	baseL, baseT := c.Func("tpl", "Lit2Token"), c.Func("tpl", "Token2Lit")
	bScan, bInit := c.Method("tpl", "Scanner", "Scan"), c.Method("tpl", "Scanner", "Init")
	user := constVal(c, "tpl", "USER_TOKEN_BEGIN")
	illegal := constVal(c, "tpl", "ILLEGAL")
	ident := constVal(c, "tpl", "IDENT")
	if ltot == nil || ttol == nil || scan == nil || ini == nil || baseL == nil || baseT == nil || bScan == nil || bInit == nil {
		return
	}
	ut := types.Typ[types.Uint]
	// ---- Ltot
	for _, nilMap := range []bool{false, true} {
		for _, quoted := range []bool{true, false} {
			h, st := newKw(c, nilMap)
			lit := ai.NewSym("lit", ai.TString)
			first := st.StrAt(lit, ai.Int(0), types.Typ[types.Uint8])
			min := int64(1)
			if quoted {
				min = 2
			}
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(st.Len(lit), -min))), true)
			st.Assume(st.Eq(first, ai.ConstT(constant.MakeInt64('"'), types.Typ[types.Uint8])), quoted)
			_, _, n0, _ := st.SliceParts(h.tokens)
			h.m.Hook = func(m *ai.Machine, s *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.Fn != baseL {
					return nil, false
				}
				m.Check(s, s.Same(ci.Args[len(ci.Args)-1], lit), ci.Pos(), "another spelling than the given one is looked up")
				known, unknown := s, s.Clone()
				k := ai.FreshVal(known, "known", ut)
				known.Assume(known.Eq(k, uintT(illegal)), false)
				known.Ghost["base"] = k
				unknown.Ghost["base"] = uintT(illegal)
				return []ai.Outcome{{St: known, Ret: k}, {St: unknown, Ret: uintT(illegal)}}, true
			}
			added, had, table, none := 0, 0, 0, 0
			for _, o := range h.m.Run(ltot, []*T{h.sc, lit}, nil, st) {
				s := o.St
				if o.Panic != nil {
					h.m.Check(s, false, ltot.Pos(), "a spelling makes it panic")
					continue
				}
				tk, kw := getField(s, h.sc, h.t, "tokens"), getField(s, h.sc, h.t, "keywords")
				base := s.Ghost["base"]
				if base == nil {
					h.m.Check(s, false, ltot.Pos(), "the token table is not consulted")
					continue
				}
				_, _, n1, _ := s.SliceParts(tk)
				same := s.Same(tk, h.tokens)
				if b, ok := ai.IntVal(base); !ok || b != illegal {
					table++
					h.m.Check(s, s.EQ(o.Ret, base) && same, ltot.Pos(), "a spelling of the token table does not convert to its kind")
					continue
				}
				if !quoted {
					none++
					h.m.Check(s, s.EQ(o.Ret, uintT(illegal)) && same, ltot.Pos(), "a spelling that is neither a token nor a quoted keyword is not illegal")
					continue
				}
				inner := s.Substr(lit, ai.Int(1), ai.AddK(s.Len(lit), -1))
				if same {
					had++
					has, v := s.MapHas(kw, inner, h.kwT)
					h.m.Check(s, s.Same(kw, h.keywords) && has == 1 && s.EQ(v, o.Ret), ltot.Pos(), "a keyword that is known does not convert to its kind")
					continue
				}
				added++
				if !nilMap {
					h.m.Check(s, s.Same(kw, h.keywords), ltot.Pos(), "the keywords known before are dropped")
					has, _ := st.MapHas(h.keywords, inner, h.kwT)
					_ = has
				}
				has, v := s.MapHas(kw, inner, h.kwT)
				h.m.Check(s, has == 1 && s.EQ(v, o.Ret), ltot.Pos(), "the scanner does not learn a new keyword under the kind that is returned")
				h.m.Check(s, s.EQ(o.Ret, ai.AddK(n0, user)), ltot.Pos(), "the kind of a new keyword is %s, not the next free one (%s)", o.Ret, ai.AddK(n0, user))
				h.m.Check(s, s.EQ(n1, ai.AddK(n0, 1)) && s.Same(elemOf(s, tk, n0), lit), ltot.Pos(), "the spelling of a new keyword is not stored at its place")
			}
			c.Must(table > 0 && (quoted && added > 0 && (nilMap || had > 0) || !quoted && none > 0), ltot.Pos(), "AutoKwScanner.Ltot", "no path converts such a spelling (%d/%d/%d/%d)", table, had, added, none)
			c.Case("Ltot of an arbitrary spelling (quoted: %v, no keywords yet: %v): %d in the token table, %d known keywords, %d new keywords, %d illegal", quoted, nilMap, table, had, added, none)
			c.Absorb("AutoKwScanner.Ltot", h.m)
		}
	}
	// ---- Ttol
	for _, kw := range []bool{true, false} {
		h, st := newKw(c, false)
		tok := ai.FreshVal(st, "tok", ut)
		_, _, n0, _ := st.SliceParts(h.tokens)
		if kw {
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(tok, -user))), true)
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(ai.AddK(n0, user), tok), -1))), true)
		} else {
			st.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(ai.Int(user), tok), -1))), true)
		}
		want := elemOf(st, h.tokens, ai.AddK(tok, -user))
		h.m.Hook = func(m *ai.Machine, s *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn != baseT {
				return nil, false
			}
			m.Check(s, s.EQ(ci.Args[len(ci.Args)-1], tok), ci.Pos(), "another kind than the given one is looked up")
			s.Ghost["spell"] = ai.FreshVal(s, "spelling", ai.TString)
			return []ai.Outcome{{St: s, Ret: s.Ghost["spell"]}}, true
		}
		n := 0
		for _, o := range h.m.Run(ttol, []*T{h.sc, tok}, nil, st) {
			n++
			if o.Panic != nil {
				h.m.Check(o.St, false, ttol.Pos(), "a known kind makes it panic")
				continue
			}
			if kw {
				h.m.Check(o.St, o.St.Same(o.Ret, want), ttol.Pos(), "the spelling of a keyword kind is %s, not the one it was registered with", o.Ret)
			} else {
				h.m.Check(o.St, o.St.Ghost["spell"] != nil && o.St.Same(o.Ret, o.St.Ghost["spell"]), ttol.Pos(), "the spelling of a token is not the one of the token table")
			}
		}
		c.Must(n > 0, ttol.Pos(), "AutoKwScanner.Ttol", "it does not return")
		c.Case("Ttol of an arbitrary kind (a keyword: %v): %d paths", kw, n)
		c.Absorb("AutoKwScanner.Ttol", h.m)
	}
	// ---- Scan
	{
		h, st := newKw(c, false)
		tokT := c.Type("tpl", "Token")
		var k, p, l *T
		h.m.Hook = func(m *ai.Machine, s *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn != bScan {
				return nil, false
			}
			m.Check(s, s.Ghost["scanned"] == nil, ci.Pos(), "more than one token is scanned at a time")
			s.Ghost["scanned"] = ai.Bool(true)
			t := ai.FreshVal(s, "t", tokT)
			k, p, l = tokField(s, t, tokT, "Kind"), tokField(s, t, tokT, "Pos"), tokField(s, t, tokT, "Literal")
			return []ai.Outcome{{St: s, Ret: t}}, true
		}
		nk, ni, no := 0, 0, 0
		for _, o := range h.m.Run(scan, []*T{h.sc}, nil, st) {
			s := o.St
			if o.Panic != nil || s.Ghost["scanned"] == nil {
				h.m.Check(s, false, scan.Pos(), "it does not scan a token")
				continue
			}
			k1, p1, l1 := tokField(s, o.Ret, tokT, "Kind"), tokField(s, o.Ret, tokT, "Pos"), tokField(s, o.Ret, tokT, "Literal")
			h.m.Check(s, s.EQ(p1, p) && s.Same(l1, l), scan.Pos(), "the position or text of a token is changed")
			switch s.Eval(s.Eq(k, uintT(ident))) {
			case 1:
				has, v := s.MapHas(h.keywords, l, h.kwT)
				switch has {
				case 1:
					nk++
					h.m.Check(s, s.EQ(k1, v), scan.Pos(), "an identifier that is a keyword does not get the kind of the keyword")
				case -1:
					ni++
					h.m.Check(s, s.EQ(k1, k), scan.Pos(), "the kind of an identifier that is no keyword is changed")
				default:
					h.m.Check(s, false, scan.Pos(), "an identifier is returned without looking whether it is a keyword")
				}
			case -1:
				no++
				h.m.Check(s, s.EQ(k1, k), scan.Pos(), "the kind of a token that is no identifier is changed")
			default:
				h.m.Check(s, false, scan.Pos(), "whether the token is an identifier is not looked at")
			}
		}
		c.Must(nk > 0 && ni > 0 && no > 0, scan.Pos(), "AutoKwScanner.Scan", "keywords, identifiers and other tokens are not told apart (%d/%d/%d paths)", nk, ni, no)
		c.Case("Scan of an arbitrary token over arbitrary keywords: %d keyword, %d identifier, %d other paths", nk, ni, no)
		c.Absorb("AutoKwScanner.Scan", h.m)
	}
	// ---- Init
	for _, nilMap := range []bool{false, true} {
		h, st := newKw(c, nilMap)
		args := []*T{h.sc}
		for i := 0; i < ini.Signature.Params().Len(); i++ {
			args = append(args, ai.FreshVal(st, ini.Signature.Params().At(i).Name(), paramType(ini, i)))
		}
		h.m.Hook = func(m *ai.Machine, s *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn != bInit {
				return nil, false
			}
			m.Check(s, s.Ghost["inited"] == nil && len(ci.Args) == len(args), ci.Pos(), "the scanner is initialised twice")
			for i := 1; i < len(args) && i < len(ci.Args); i++ {
				m.Check(s, s.Same(ci.Args[i], args[i]), ci.Pos(), "the scanner is initialised with something else than was given")
			}
			s.Ghost["inited"] = ai.Bool(true)
			return []ai.Outcome{{St: s}}, true
		}
		n := 0
		for _, o := range h.m.Run(ini, args, nil, st) {
			s := o.St
			n++
			if o.Panic != nil {
				h.m.Check(s, false, ini.Pos(), "it panics")
				continue
			}
			tk, kw := getField(s, h.sc, h.t, "tokens"), getField(s, h.sc, h.t, "keywords")
			h.m.Check(s, s.Ghost["inited"] != nil, ini.Pos(), "the scanner is not initialised")
			h.m.Check(s, s.Same(tk, h.tokens), ini.Pos(), "the spellings of the keywords are changed")
			if !nilMap {
				h.m.Check(s, s.Same(kw, h.keywords), ini.Pos(), "the keywords are dropped")
			}
		}
		c.Must(n > 0, ini.Pos(), "AutoKwScanner.Init", "it does not return")
		c.Case("Init with keywords (none yet: %v): %d paths", nilMap, n)
		c.Absorb("AutoKwScanner.Init", h.m)
	}
	c.Rule("keyword k has kind USER_TOKEN_BEGIN+i exactly when spelling i is \"k\": established by Ltot, kept by Init, used by Ttol and Scan")
}

func elemOf(s *S, sl, i *T) *T {
	arr, lo, _, _ := s.SliceParts(sl)
	et := sl.Typ.Underlying().(*types.Slice).Elem()
	return s.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(et)), et)
}

func tokField(s *S, tok *T, t types.Type, name string) *T {
	i, ft := fieldIdx(t, name)
	if i < 0 {
		panic("field " + name + " of Token is missing")
	}
	return s.Field(tok, i, ft)
}

func init() {
	register("S06", "The token tables are evaluated abstractly from the package initialiser: for every kind the spelling, the conversion back and the length are computed and compared; conversion of an arbitrary spelling and the end of a token with an arbitrary literal are interpreted symbolically.", checkTokenTables)
	register("S08", "Abstract interpretation of the keyword-discovering scanner over arbitrary keywords and spellings: the relation between kinds and spellings is established, kept and used.", checkAutoKw)
	_ = token.NoPos
}
