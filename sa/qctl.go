package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/sa/ai"
)

func init() {
	register("Q03", "the handlers of && || if switch for are interpreted on the value stack that each form of the grammar leaves for them; the evaluation of a captured part is an event whose order is compared with the specification", checkControl)
}

// code is a captured part of the source.
type code struct {
	rule  string
	empty bool
	t     *T
	label string
}

// alternatives are the bodies of a rule, one per alternative.
func (g *gspec) alternatives(rule string) []*rnode {
	n := g.rules[rule]
	if n == nil {
		return nil
	}
	if n.k == '|' {
		return n.kids
	}
	return []*rnode{n}
}

// valueRules are the rules whose match leaves one value.
var valueRules = []string{"term1", "term2", "term3", "term4", "expr", "s", "doc", "factor", "term"}

func (g *gspec) deriver(max int) *deriver {
	d := &deriver{g: g, atomic: map[string]bool{}, max: max}
	for _, r := range valueRules {
		if g.rules[r] != nil {
			d.atomic[r] = true
		}
	}
	return d
}

// endingWith lists the derivations whose last action is a mark.
func (g *gspec) endingWith(mark string, max int) []deriv {
	d := g.deriver(max)
	var out []deriv
	for _, r := range g.order {
		if !d.atomic[r] {
			continue
		}
		for _, alt := range g.alternatives(r) {
			has := false
			alt.marks(func(m string, _ *rnode) { has = has || m == mark })
			if !has {
				continue
			}
			for _, x := range d.of(alt, false) {
				if k := len(x.ev); k > 0 && x.ev[k-1].mark == mark {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// play runs the actions of a derivation up to its last one; it yields the
// captured parts and the arities in order.
func (h *qclH) play(d deriv, ip *T, vals func(i int, rule string) *T, last bool) (codes []code, arities []int, ok bool) {
	mute, nv := 0, 0
	evs := d.ev
	if !last {
		evs = evs[:len(evs)-1]
	}
	for _, e := range evs {
		if e.mark == "" {
			if mute == 0 {
				h.pushV(h.st, vals(nv, e.rule))
				nv++
			}
			continue
		}
		fn := tableFn(h.base, h.table, h.mt, "$"+e.mark)
		if fn == nil {
			switch e.mark {
			case "_mute":
				mute++
			case "_unmute":
				mute--
			case "_tr":
			default:
				h.c.Missing("the handler of the mark " + e.mark)
				return nil, nil, false
			}
			continue
		}
		if mute > 0 && (e.mark[0] != '_' || mute > 1) {
			continue
		}
		var arg *T
		sig := fn.Fn.Signature
		if ai.NumIn(sig) >= 2 {
			switch t := ai.ParamType(sig, 1); {
			case types.Identical(t, ai.TInt) && upperMark(e.mark):
				arg = ai.Int(int64(e.n))
				arities = append(arities, e.n)
			case types.IsInterface(t) && !types.Identical(t, h.engT):
				arg = ai.Nil(ai.TAny)
				if !e.empty {
					arg = ai.NewSym(desc("code%d", len(codes)), ai.TAny)
					h.st.Assume(ai.App("isnil", ai.TBool, arg), false)
				}
				codes = append(codes, code{rule: e.rule, empty: e.empty, t: arg})
			}
		}
		args, k := h.argsFor(fn, ip, arg)
		if !k {
			h.c.Missing("the arguments of the handler of " + e.mark)
			return nil, nil, false
		}
		n := 0
		var next *S
		for _, o := range h.m.CallValue(fn, args, h.st) {
			if o.Panic == nil && (o.Ret == nil || o.St.Eval(o.St.IsNil(o.Ret)) >= 0) {
				next = o.St
				n++
			}
		}
		if n != 1 {
			h.m.Check(h.st, false, fnPos(fn), "%s: the handler of %s has %d results", d.text, e.mark, n)
			return nil, nil, false
		}
		h.st = next
	}
	return codes, arities, true
}

func upperMark(m string) bool {
	if m[0] == '_' {
		m = m[1:]
	}
	return m != "" && m[0] >= 'A' && m[0] <= 'Z'
}

// ctlSpec decides what has to happen after an event "label=result" ("" at the
// start): "eval L", "end nil", "end true", "end false", "end L", "panic" or "" (an event that
// must not be there).
type ctlSpec func(ev string) string

type ctlCase struct {
	what  string
	codes []code
	cond  func(label string) []*T // the values a part may have; nil: any value
	names func(label string) []string
	next  ctlSpec
}

// runCtl interprets a handler against a ctlSpec.
func (h *qclH) runCtl(fn, ip *T, cs *ctlCase) {
	g := h.grammar()
	above := map[string]map[string]bool{}
	h.m.Key = func(st *S) string {
		if p := st.Ghost["phase"]; p != nil {
			return p.String()
		}
		return ""
	}
	h.st.Ghost["phase"] = ai.Str("")
	phase := func(st *S) string { s, _ := ai.StrVal(st.Ghost["phase"]); return s }
	events := 0
	h.onEval = func(st *S, p, rule, cd *T, pos token.Pos) []ai.Outcome {
		events++
		label, capt := "", ""
		for _, x := range cs.codes {
			if !x.empty && st.Same(x.t, cd) {
				label, capt = x.label, x.rule
			}
		}
		want := cs.next(phase(st))
		if !h.m.Check(st, want == "eval "+label && label != "", pos, "%s: after %q the part %q is evaluated, the specification says %q", cs.what, phase(st), label, want) {
			return nil
		}
		h.m.Check(st, st.Same(p, ip), pos, "%s: the part %s is not evaluated in the current scope", cs.what, label)
		if above[capt] == nil {
			above[capt] = g.above(capt)
		}
		rn, _ := ai.StrVal(rule)
		h.m.Check(st, above[capt][rn], pos, "%s: the part %s was read as %s and is evaluated as %q", cs.what, label, capt, rn)
		if capt == "doc" || rn == "doc" {
			b := h.get(st, ip, "base")
			h.m.Check(st, st.EQ(b, st.Len(st.Load(h.stk, h.stkT))), pos, "%s: the statements of %s can remove values that were on the stack before", cs.what, label)
		}
		var outs []ai.Outcome
		out := func(res string, v, err, pv *T) {
			s := st.Clone()
			if v == nil {
				v = ai.NewSym("junk", ai.TAny) // whatever was evaluated before it failed
			}
			h.pushV(s, v)
			s.Ghost["phase"] = ai.Str(label + "=" + res)
			s.Ghost["val"] = v
			if err == nil {
				err = ai.Nil(types.Universe.Lookup("error").Type())
			}
			if res == "err" {
				s.Ghost["val"] = err
			}
			if pv != nil {
				s.Ghost["val"] = pv
				outs = append(outs, ai.Outcome{St: s, Panic: pv})
				return
			}
			outs = append(outs, ai.Outcome{St: s, Ret: err})
		}
		if names := cs.names(label); names != nil {
			for i, v := range cs.cond(label) {
				out(names[i], v, nil, nil)
			}
		} else {
			out("v", ai.NewSym("value", ai.TAny), nil, nil)
		}
		e := ai.NewSym("err", types.Universe.Lookup("error").Type())
		st.Assume(ai.App("isnil", ai.TBool, e), false)
		out("err", nil, e, nil)
		pv := ai.NewSym("panicked", ai.TAny)
		st.Assume(ai.App("isnil", ai.TBool, pv), false)
		out("panic", nil, nil, pv)
		return outs
	}
	ends := 0
	for _, o := range h.call(fn, ip, nil) {
		st := o.St
		ph := phase(st)
		want := cs.next(ph)
		failed := o.Panic != nil || o.Ret != nil && st.Eval(st.IsNil(o.Ret)) < 0
		if strings.HasSuffix(ph, "=err") || strings.HasSuffix(ph, "=panic") {
			v := o.Panic
			if v == nil {
				v = o.Ret
			}
			h.m.Check(st, failed && v != nil && (st.Same(v, st.Ghost["val"]) || v.K == ai.KIface && st.Same(v.Args[0], st.Ghost["val"])), fnPos(fn), "%s: a failure of the part %s is not passed on", cs.what, ph)
			continue
		}
		if failed {
			h.m.Check(st, want == "panic", fnPos(fn), "%s: after %q it fails, the specification says %q", cs.what, ph, want)
			continue
		}
		ends++
		if !h.m.Check(st, strings.HasPrefix(want, "end "), fnPos(fn), "%s: after %q it ends, the specification says %q", cs.what, ph, want) {
			continue
		}
		if !h.kept(st, fnPos(fn), cs.what, 1) {
			continue
		}
		v := h.top(st, 0)
		switch w := want[4:]; w {
		case "nil":
			h.m.Check(st, st.Eval(st.IsNil(v)) > 0, fnPos(fn), "%s: its value is %s instead of nil", cs.what, v)
		case "true", "false":
			h.m.Check(st, st.Same(v, ai.Iface(ai.TBool, ai.Bool(w == "true"), ai.TAny)), fnPos(fn), "%s: its value is %s instead of %s", cs.what, v, w)
		default:
			h.m.Check(st, st.Same(v, st.Ghost["val"]), fnPos(fn), "%s: its value is %s instead of the one of %s", cs.what, v, w)
		}
	}
	h.m.Key = nil
	h.c.Counts["events"] += events
}

func boolVal(b bool) *T { return ai.Iface(ai.TBool, ai.Bool(b), ai.TAny) }
func intBox(n int64) *T { return ai.Iface(ai.TInt, ai.Int(n), ai.TAny) }

// condVals are the values of a condition.
func condVals() ([]string, []*T) {
	return []string{"t", "f", "n"}, []*T{boolVal(true), boolVal(false), ai.Iface(ai.TInt, ai.NewSym("number", ai.TInt), ai.TAny)}
}

func checkControl(c *Ctx) {
	c.Rule("only the part that is selected is evaluated, each part in the current scope as the rule it was read as, in source order; a condition that is no boolean fails; the construct leaves exactly one value: that of the selected part, or nil; errors and panics of a part are passed on")
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	h.controlCases(h.runCtl)
}

// controlCases passes every form of and, or, if, switch and for to run.
func (h *qclH) controlCases(run func(fn, ip *T, cs *ctlCase)) {
	c := h.c
	outer := func() *T { return h.scope("outer", nil) }
	for f, n := range h.opFn {
		if n == "EQ" {
			delete(h.opFn, f) // the cases of a switch are compared by the real operator
		}
	}
	g := h.grammar()
	n := 0
	for _, mk := range []string{"and", "or"} {
		fn := h.handler(mk)
		if fn == nil {
			continue
		}
		ds := g.endingWith(mk, 2)
		if len(ds) == 0 {
			c.Missing("the mark " + mk + " in the grammar")
		}
		for _, d := range ds {
			names, vals := condVals()
			for i, a := range vals {
				for _, inner := range []bool{false, true} {
					h.reset()
					var parent *T
					if inner {
						parent = outer()
					}
					ip := h.scope("scope", parent)
					codes, _, ok := h.play(d, ip, func(int, string) *T { return a }, false)
					if !ok || !h.m.Check(h.st, len(codes) == 1, fnPos(fn), "%s: %d parts are captured", d.text, len(codes)) {
						h.absorb(mk)
						continue
					}
					codes[0].label = "right"
					n++
					first := names[i]
					cs := &ctlCase{what: desc("%s with a left operand %s", mk, a), codes: codes, names: func(string) []string { return nil }}
					cs.next = func(ev string) string {
						switch {
						case ev == "" && first == "n":
							return "panic"
						case ev == "" && (first == "t") == (mk == "or"):
							return "end " + map[bool]string{true: "true", false: "false"}[mk == "or"]
						case ev == "":
							return "eval right"
						case ev == "right=v":
							return "end right"
						}
						return "panic"
					}
					run(fn, ip, cs)
					h.absorb(mk)
				}
			}
		}
	}
	for _, mk := range []string{"if", "switch", "for"} {
		fn := h.handler(mk)
		if fn == nil {
			continue
		}
		max := 3
		if c.Tier == "thorough" {
			max = 5
		}
		ds := g.endingWith(mk, max)
		if len(ds) == 0 {
			c.Missing("the mark " + mk + " in the grammar")
		}
		for i, d := range ds {
			h.reset()
			var parent *T
			if i%2 == 1 {
				parent = outer()
			}
			ip := h.scope("scope", parent)
			codes, ar, ok := h.play(d, ip, nil, false)
			if !ok {
				h.absorb(mk)
				continue
			}
			cs := &ctlCase{what: d.text, codes: codes}
			n++
			good := false
			switch mk {
			case "if":
				good = h.ifCase(cs, ar)
			case "switch":
				good = h.switchCase(cs, ar)
			case "for":
				good = h.forCase(cs, ar)
			}
			if h.m.Check(h.st, good, fnPos(fn), "%s: the captured parts do not have the expected form", d.text) {
				run(fn, ip, cs)
			}
			h.absorb(mk)
		}
		c.Case("%s: %d forms", mk, len(ds))
	}
	c.Case("%d cases", n)
}

func (h *qclH) ifCase(cs *ctlCase, ar []int) bool {
	if len(ar) != 2 || len(cs.codes) != 2+2*ar[0]+ar[1] {
		return false
	}
	n := ar[0] + 1
	body := map[string]bool{}
	for i := range cs.codes {
		c := &cs.codes[i]
		switch {
		case i == 2*n:
			c.label = "else"
		case i%2 == 0:
			c.label = desc("cond%d", i/2)
		default:
			c.label = desc("body%d", i/2)
		}
		body[c.label] = !c.empty
	}
	nm, vs := condVals()
	cs.names = func(l string) []string {
		if strings.HasPrefix(l, "cond") {
			return nm
		}
		return nil
	}
	cs.cond = func(string) []*T { return vs }
	take := func(l string) string {
		if body[l] {
			return "eval " + l
		}
		return "end nil"
	}
	cs.next = func(ev string) string {
		if ev == "" {
			return "eval cond0"
		}
		for i := 0; i < n; i++ {
			switch ev {
			case desc("cond%d=t", i):
				return take(desc("body%d", i))
			case desc("cond%d=f", i):
				if i+1 < n {
					return desc("eval cond%d", i+1)
				}
				return take("else")
			case desc("body%d=v", i):
				return desc("end body%d", i)
			}
		}
		if ev == "else=v" {
			return "end else"
		}
		return "panic"
	}
	return true
}

func (h *qclH) switchCase(cs *ctlCase, ar []int) bool {
	if len(ar) != 2 || len(cs.codes) != 1+2*ar[0]+ar[1] {
		return false
	}
	n := ar[0]
	has := map[string]bool{}
	for i := range cs.codes {
		c := &cs.codes[i]
		switch {
		case i == 0:
			c.label = "tag"
		case i == 1+2*n:
			c.label = "default"
		case i%2 == 1:
			c.label = desc("case%d", i/2)
		default:
			c.label = desc("body%d", i/2-1)
		}
		has[c.label] = !c.empty
	}
	_, bools := condVals()
	cs.names = func(l string) []string {
		if strings.HasPrefix(l, "case") {
			return []string{"t", "f", "o"}
		}
		if l == "tag" {
			return []string{"v"}
		}
		return nil
	}
	cs.cond = func(l string) []*T {
		if l == "tag" {
			return []*T{intBox(7)}
		}
		if has["tag"] {
			return []*T{intBox(7), intBox(8), ai.Iface(ai.TString, ai.Str("7"), ai.TAny)}
		}
		return bools
	}
	take := func(l string) string {
		if has[l] {
			return "eval " + l
		}
		return "end nil"
	}
	try := func(i int) string {
		if i < n {
			return desc("eval case%d", i)
		}
		return take("default")
	}
	cs.next = func(ev string) string {
		if ev == "" {
			if has["tag"] {
				return "eval tag"
			}
			return try(0)
		}
		if ev == "tag=v" {
			return try(0)
		}
		for i := 0; i < n; i++ {
			switch ev {
			case desc("case%d=t", i):
				return take(desc("body%d", i))
			case desc("case%d=f", i), desc("case%d=o", i):
				return try(i + 1)
			case desc("body%d=v", i):
				return desc("end body%d", i)
			}
		}
		if ev == "default=v" {
			return "end default"
		}
		return "panic"
	}
	return true
}

func (h *qclH) forCase(cs *ctlCase, ar []int) bool {
	if len(ar) != 1 || len(cs.codes) != ar[0]+1 {
		return false
	}
	n := ar[0]
	cs.codes[n].label = "body"
	switch n {
	case 1:
		cs.codes[0].label = "cond"
	case 3:
		cs.codes[0].label, cs.codes[1].label, cs.codes[2].label = "init", "cond", "step"
	}
	has := map[string]bool{}
	for _, c := range cs.codes {
		has[c.label] = !c.empty
	}
	nm, vs := condVals()
	cs.names = func(l string) []string {
		if l == "cond" {
			return nm
		}
		return nil
	}
	cs.cond = func(string) []*T { return vs }
	order := []string{"cond", "body", "step"}
	after := func(l string) string {
		for i, x := range order {
			if x == l {
				for k := 1; k <= 3; k++ {
					if y := order[(i+k)%3]; has[y] {
						return "eval " + y
					}
				}
			}
		}
		return "loop"
	}
	cs.next = func(ev string) string {
		if n == 2 || n > 3 {
			return "panic"
		}
		switch ev {
		case "":
			if has["init"] {
				return "eval init"
			}
			return after("step")
		case "init=v":
			return after("step")
		case "cond=t":
			return after("cond")
		case "cond=f":
			return "end nil"
		case "body=v", "step=v":
			return after(ev[:4])
		}
		return "panic"
	}
	return true
}
