package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

var crMu sync.Mutex
var crDone = map[*ssa.Function]string{}

// dropsCR says what is wrong with a text that a function derived from the
// text of a token by dropping carriage returns ("" if nothing is).
func (h *fsm) dropsCR(t *fval) string {
	switch t.S {
	case "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Replace", "strings.Replace":
		ok := len(t.Fs) >= 3
		if ok {
			a, aok := t.Fs[1].strc()
			b, bok := t.Fs[2].strc()
			ok = (!aok || a == "\r") && // a []byte of unknown content is taken to be the carriage return
				(!bok || b == "")
		}
		if ok && len(t.Fs) == 4 {
			n, nok := t.Fs[3].intc()
			ok = nok && n < 0
		}
		if !ok {
			return "not the text it covers without carriage returns"
		}
		return ""
	}
	if t.Fn == nil || len(t.Fs) != 1 {
		return "not the text it covers without carriage returns"
	}
	crMu.Lock()
	defer crMu.Unlock()
	if s, ok := crDone[t.Fn]; ok {
		return s
	}
	s := filterCR(h.c, t.Fn)
	crDone[t.Fn] = s
	return s
}

// filterCR shows that a function returns its argument without carriage
// returns: it reads the bytes in order, each is kept behind the ones kept
// before exactly if it is none, and the result is what was kept.
func filterCR(c *Ctx, fn *ssa.Function) string {
	if len(fn.Params) != 1 || len(fn.Blocks) == 0 {
		return "derived from its text in an unknown way"
	}
	m := c.Machine()
	b := ai.NewSym("text", fn.Params[0].Type())
	st := ai.NewState()
	G := st.Ghost
	G["kept"], G["next"], G["due"] = ai.Int(0), ai.Int(0), ai.Bool(false)
	G["cur"] = ai.Int(0)
	cr := ai.ConstT(constant.MakeInt64('\r'), types.Typ[types.Uint8])
	isCR := func(st *S) (yes, no bool) {
		e := st.Eq(st.Ghost["cur"], cr)
		return st.Eval(e) > 0, st.Eval(e) < 0
	}
	settle := func(st *S, pos token.Pos) {
		if d, ok := ai.BoolVal(st.Ghost["due"]); ok && !d {
			return
		}
		yes, _ := isCR(st)
		m.Check(st, yes, pos, "a byte that is no carriage return is dropped")
		st.Ghost["due"] = ai.Bool(false)
	}
	isText := func(st *S, addr *T) (*T, bool) {
		if addr.K != ai.KIndexAddr {
			return nil, false
		}
		arr, lo, _, _ := st.SliceParts(b)
		if addr.Args[0] != arr {
			return nil, false
		}
		return ai.Sub(addr.Args[1], lo), true
	}
	m.OnLoad = func(m *ai.Machine, st *S, addr *T, in ssa.Instruction) {
		i, ok := isText(st, addr)
		if !ok {
			return
		}
		if st.EQ(i, ai.AddK(st.Ghost["next"], -1)) {
			return // read again
		}
		settle(st, in.Pos())
		m.Check(st, st.EQ(i, st.Ghost["next"]), in.Pos(), "the bytes are not read in order")
		st.Ghost["next"] = ai.AddK(i, 1)
		st.Ghost["cur"] = st.Load(addr, types.Typ[types.Uint8])
		st.Ghost["due"] = ai.Bool(true)
	}
	keep := func(st *S, v *T, pos token.Pos) {
		due, ok := ai.BoolVal(st.Ghost["due"])
		_, no := isCR(st)
		m.Check(st, ok && due && no && st.Same(v, st.Ghost["cur"]), pos, "something else than the bytes that are no carriage returns is kept")
		st.Ghost["due"] = ai.Bool(false)
		st.Ghost["kept"] = ai.AddK(st.Ghost["kept"], 1)
	}
	m.OnStore = func(m *ai.Machine, st *S, addr, v *T, in ssa.Instruction) {
		if addr.K != ai.KIndexAddr || ai.Root(addr).K != ai.KObj {
			return
		}
		if bt, ok := v.Typ.Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 && bt.Kind() != types.UntypedRune {
			return
		}
		if _, isApp := in.(*ssa.Store); !isApp {
			return
		}
		if al, ok := in.(*ssa.Store).Addr.(*ssa.IndexAddr); ok {
			if _, ok := al.X.(*ssa.Alloc); ok {
				return // the arguments of append
			}
		}
		m.Check(st, st.EQ(addr.Args[1], st.Ghost["kept"]), in.Pos(), "a kept byte is not put behind the ones kept before")
		keep(st, v, in.Pos())
	}
	m.OnAppend = func(m *ai.Machine, st *S, a, x, r *T, in ssa.Instruction) {
		m.Check(st, st.EQ(st.Len(a), st.Ghost["kept"]) && st.EQ(st.Len(x), ai.Int(1)), in.Pos(), "a kept byte is not put behind the ones kept before")
		keep(st, elemOf(st, x, ai.Int(0)), in.Pos())
	}
	for _, o := range m.Run(fn, []*T{b}, nil, st) {
		if o.Panic != nil {
			continue
		}
		settle(o.St, fn.Pos())
		m.Check(o.St, o.St.EQ(o.St.Ghost["next"], o.St.Len(b)), fn.Pos(), "not all bytes are looked at")
		m.Check(o.St, o.St.EQ(o.St.Len(o.Ret), o.St.Ghost["kept"]), fn.Pos(), "the result has not the length of what was kept")
	}
	if len(m.Undecided) > 0 {
		return "derived from its text in an unknown way: " + m.Undecided[0]
	}
	if len(m.Findings) > 0 {
		return "not the text it covers without carriage returns: " + m.Findings[0].Msg
	}
	return ""
}
