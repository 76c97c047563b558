package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("X03", "every reference of the library's packages to a function that ends the process is found in the SSA form; the handlers that may use one are interpreted with the end of the process, the evaluation of the body and of the deferred expressions as events", checkExits)
}

// ending is a function that ends the process or the goroutine of its caller
// (or of another process).
func ending(fn *ssa.Function) string {
	if fn == nil || fn.Pkg == nil && fn.Object() == nil {
		return ""
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else {
		p = fn.Object().Pkg()
	}
	if p == nil {
		return ""
	}
	n, recv := fn.Name(), ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if q, ok := t.(*types.Named); ok {
			recv = q.Obj().Name() + "."
		}
	}
	n = strings.TrimSuffix(strings.TrimSuffix(n, "$bound"), "$thunk")
	k := p.Path() + "." + recv + n
	switch k {
	case "os.Exit", "os.Process.Kill", "os.Process.Signal", "runtime.Goexit",
		"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Logger.Fatal", "log.Logger.Fatalf", "log.Logger.Fatalln",
		"syscall.Exit", "syscall.Kill", "syscall.Exec", "syscall.RawSyscall", "syscall.RawSyscall6", "syscall.Syscall", "syscall.Syscall6",
		"flag.Parse", "runtime.Breakpoint", "runtime/debug.SetMaxStack", "runtime/debug.SetMaxThreads":
		return k
	}
	if strings.HasPrefix(k, "flag.FlagSet.Parse") {
		return k
	}
	return ""
}

// checkExits decides X03.
func checkExits(c *Ctx) {
	c.Rule("no function of a package that is no program refers to a function that ends the process (os.Exit, log.Fatal, runtime.Goexit, signals, ...) except the handlers of return and main of qlang and what only they call; return ends the process only in a scope that has no parent, once, after each deferred expression of the script has been evaluated, last in first out, with the int returned (0 without a value or for nil), and with another value it panics instead; in a function it never does; main evaluates its body once and ends the process only if that succeeds, with its result (an int; 0 for nil)")
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	allowed := map[*ssa.Function]bool{}
	for _, mk := range []string{"return", "main"} {
		if fn := h.handler(mk); fn != nil && fn.Fn != nil {
			allowed[fn.Fn] = true
			if fn.Fn.Synthetic != "" {
				// the method behind a method expression
				for _, b := range fn.Fn.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && ci.Call.StaticCallee().Object() == fn.Fn.Object() {
							allowed[ci.Call.StaticCallee()] = true
						}
					}
				}
			}
		} else {
			c.Missing("the handler of " + mk)
			return
		}
	}
	c.whoEnds(allowed)
	h.exitReturn()
	h.exitMain()
}

func program(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
}

// whoEnds checks the references.
func (c *Ctx) whoEnds(allowed map[*ssa.Function]bool) {
	fns := c.P.AllFuncs()
	// refs: who refers to a function, and whether only by calling it
	type ref struct {
		from *ssa.Function
		call bool
		pos  token.Pos
	}
	refs := map[*ssa.Function][]ref{}
	nref := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					v := &ci.Common().Value
					callee = v
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					_, isCall := in.(*ssa.Call)
					_, isDefer := in.(*ssa.Defer)
					refs[g] = append(refs[g], ref{f, (isCall || isDefer) && callee != nil && *callee == *op && op == callee, in.Pos()})
					nref++
				}
			}
		}
		if p := f.Parent(); p != nil {
			// a function literal belongs to the function it is written in
			refs[f] = append(refs[f], ref{p, true, f.Pos()})
		}
	}
	handlers := map[*ssa.Function]bool{}
	for f := range allowed {
		handlers[f] = true
	}
	// what only the handlers call
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if allowed[f] || len(refs[f]) == 0 || f.Object() != nil && f.Object().Exported() {
				continue
			}
			only := true
			for _, r := range refs[f] {
				only = only && allowed[r.from] && (r.call || f.Parent() != nil)
			}
			if only {
				allowed[f] = true
				changed = true
			}
		}
	}
	m := c.Machine()
	st := ai.NewState()
	var ends []*ssa.Function
	for g := range refs {
		if ending(g) != "" {
			ends = append(ends, g)
		}
	}
	sort.Slice(ends, func(i, j int) bool { return ends[i].String() < ends[j].String() })
	lib := 0
	for _, f := range fns {
		if !program(f) {
			lib++
		}
	}
	n := 0
	for _, g := range ends {
		for _, r := range refs[g] {
			if program(r.from) {
				continue
			}
			n++
			m.Check(st, allowed[r.from], r.pos, "%s refers to %s: it can end the process of its user", r.from, ending(g))
			if allowed[r.from] {
				m.Check(st, ending(g) == "os.Exit", r.pos, "%s refers to %s", r.from, ending(g))
			}
		}
	}
	for g, rs := range refs {
		if !handlers[g] {
			continue
		}
		for _, r := range rs {
			m.Check(st, allowed[r.from] || r.from.Synthetic != "", r.pos, "%s refers to %s, which can end the process", r.from, g)
		}
	}
	c.Absorb("references", m)
	c.Case("%d references to functions in %d functions, %d of them in library packages; %d references to functions that end the process", nref, len(fns), lib, n)
}

// exit is an end of the process.
type exitEv struct {
	st   *S
	code *T
	pos  token.Pos
}

// exits makes the end of the process an event.
func (h *qclH) exits(evs *[]exitEv) {
	inner := h.m.Hook
	h.m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if e := ending(ci.Fn); e != "" {
			x := exitEv{st: st, pos: ci.Pos(), code: ai.Int(1)}
			if e == "os.Exit" && len(ci.Args) == 1 {
				x.code = ci.Args[0]
			}
			*evs = append(*evs, x)
			return nil, true
		}
		return inner(m, st, ci)
	}
}

// resultCase is a value returned.
type resultCase struct {
	what string
	val  func() *T
	code func(v *T) *T // the exit code; nil: no exit
}

func resultCases() []resultCase {
	zero := func(*T) *T { return ai.Int(0) }
	return []resultCase{
		{"no value", nil, zero},
		{"nil", func() *T { return ai.Nil(ai.TAny) }, zero},
		{"an int", func() *T { return ai.Iface(ai.TInt, ai.NewSym("code", ai.TInt), ai.TAny) }, func(v *T) *T { return v.Args[0] }},
		{"a string", func() *T {
			return ai.Iface(types.Typ[types.String], ai.NewSym("text", types.Typ[types.String]), ai.TAny)
		}, nil},
		{"a float64", func() *T {
			return ai.Iface(types.Typ[types.Float64], ai.NewSym("number", types.Typ[types.Float64]), ai.TAny)
		}, nil},
		{"a byte", func() *T {
			return ai.Iface(types.Typ[types.Uint8], ai.NewSym("byte", types.Typ[types.Uint8]), ai.TAny)
		}, nil},
		{"a bool", func() *T { return ai.Iface(types.Typ[types.Bool], ai.NewSym("flag", types.Typ[types.Bool]), ai.TAny) }, nil},
	}
}

// retForm finds the derivation of return with or without a value.
func (h *qclH) retForm(with bool) (deriv, bool) {
	for _, d := range h.grammar().endingWith("return", 1) {
		if has := len(d.ev) > 0 && d.ev[0].mark == ""; has == with {
			return d, true
		}
	}
	h.c.Missing("the form of return")
	return deriv{}, false
}

// exitReturn checks return in a script and in a function.
func (h *qclH) exitReturn() {
	fn := h.handler("return")
	exprs := h.grammar().above("expr")
	pos := fnPos(fn)
	cases := 0
	for _, rc := range resultCases() {
		d, ok := h.retForm(rc.val != nil)
		if !ok {
			return
		}
		for nd := 0; nd <= 3; nd++ {
			for _, nested := range []bool{false, true} {
				cases++
				h.reset()
				var parent *T
				if nested {
					parent = h.scope("outer", nil)
				}
				ip := h.scope("scope", parent)
				what := desc("return of %s at the top level with %d deferred expressions", rc.what, nd)
				if nested {
					what = desc("return of %s in a function with %d deferred expressions", rc.what, nd)
				}
				var codes []*T
				good := true
				for i := 0; i < nd && good; i++ {
					var cc []code
					h.st, cc, good = h.run(h.st, ip, "defer", nil)
					if good = good && len(cc) == 1; good {
						codes = append(codes, cc[0].t)
					}
				}
				if !h.m.Check(h.st, good, pos, "an expression cannot be deferred") {
					h.absorb("return")
					continue
				}
				var v *T
				if rc.val != nil {
					v = rc.val()
				}
				if _, _, k := h.play(d, ip, func(int, string) *T { return v }, false); !k {
					h.absorb("return")
					continue
				}
				var evs []exitEv
				h.exits(&evs)
				h.st.Ghost["done"] = ai.Str("")
				h.onEval = func(st *S, p, rule, cd *T, at token.Pos) []ai.Outcome {
					done, _ := ai.StrVal(st.Ghost["done"])
					i := nd - 1 - len(done)
					rn, _ := ai.StrVal(rule)
					if !h.m.Check(st, !nested && i >= 0 && !strings.HasSuffix(done, "x") && st.Same(cd, codes[i]) && exprs[rn] && p == ip, at, "%s: something else than the next deferred expression is evaluated", what) {
						return nil
					}
					var outs []ai.Outcome
					s := st.Clone()
					s.Ghost["done"] = ai.Str(done + "d")
					outs = append(outs, ai.Outcome{St: s, Ret: ai.Nil(errType())})
					for _, kind := range []string{"error", "panic"} {
						s := st.Clone()
						s.Ghost["done"] = ai.Str(done + "x")
						if kind == "error" {
							e := ai.NewSym(kind, errType())
							s.Assume(ai.App("isnil", ai.TBool, e), false)
							outs = append(outs, ai.Outcome{St: s, Ret: e})
						} else {
							e := ai.NewSym(kind, ai.TAny)
							s.Assume(ai.App("isnil", ai.TBool, e), false)
							outs = append(outs, ai.Outcome{St: s, Panic: e})
						}
					}
					return outs
				}
				h.m.Key = func(st *S) string {
					if p := st.Ghost["done"]; p != nil {
						return p.String()
					}
					return ""
				}
				args, _ := h.argsFor(fn, ip, nil)
				outs := h.m.CallValue(fn, args, h.st)
				h.onEval, h.m.Key = nil, nil
				n := 0
				for _, x := range evs {
					done, _ := ai.StrVal(x.st.Ghost["done"])
					if !h.m.Check(x.st, !nested, x.pos, "%s ends the process", what) {
						continue
					}
					if !h.m.Check(x.st, rc.code != nil, x.pos, "%s ends the process with code %s", what, x.code) {
						continue
					}
					n++
					h.m.Check(x.st, done == strings.Repeat("d", nd), x.pos, "%s: the process ends although %q of the deferred expressions were evaluated", what, done)
					h.m.Check(x.st, x.st.EQ(x.code, rc.code(v)), x.pos, "%s: the exit code is %s", what, x.code)
				}
				for _, o := range outs {
					done, _ := ai.StrVal(o.St.Ghost["done"])
					switch {
					case nested || strings.HasSuffix(done, "x") || rc.code == nil:
						h.m.Check(o.St, o.Panic != nil, pos, "%s: the script goes on behind it", what)
					default:
						h.m.Check(o.St, false, pos, "%s: the process is not ended", what)
					}
				}
				if !nested && rc.code != nil {
					h.m.Check(h.st, n > 0, pos, "%s: the process is never ended", what)
				}
				h.absorb("return")
			}
		}
	}
	h.c.Case("%d cases of return", cases)
}

// exitMain checks main.
func (h *qclH) exitMain() {
	fn := h.handler("main")
	ret := h.handler("return")
	docs := h.grammar().above("doc")
	pos := fnPos(fn)
	cases := 0
	for _, d := range h.grammar().endingWith("main", 1) {
		for _, rc := range resultCases() {
			rd, ok := h.retForm(rc.val != nil)
			if !ok {
				return
			}
			cases++
			h.reset()
			ip := h.scope("scope", nil)
			what := desc("%s whose body returns %s", d.text, rc.what)
			codes, _, k := h.play(d, ip, nil, false)
			if !k || !h.m.Check(h.st, len(codes) == 1, pos, "%s: %d parts are captured", d.text, len(codes)) {
				h.absorb("main")
				continue
			}
			var evs []exitEv
			h.exits(&evs)
			h.st.Ghost["done"] = ai.Str("")
			var v *T
			if rc.val != nil {
				v = rc.val()
			}
			h.onEval = func(st *S, p, rule, cd *T, at token.Pos) []ai.Outcome {
				done, _ := ai.StrVal(st.Ghost["done"])
				rn, _ := ai.StrVal(rule)
				if !h.m.Check(st, done == "" && !codes[0].empty && st.Same(cd, codes[0].t) && docs[rn] && p != ip, at, "%s: something else than the body is evaluated once in a scope of its own", what) {
					return nil
				}
				var outs []ai.Outcome
				mk := func(k string) *S {
					s := st.Clone()
					s.Ghost["done"] = ai.Str(k)
					return s
				}
				outs = append(outs, ai.Outcome{St: mk("end"), Ret: ai.Nil(errType())})
				s := mk("error")
				e := ai.NewSym("error", errType())
				s.Assume(ai.App("isnil", ai.TBool, e), false)
				outs = append(outs, ai.Outcome{St: s, Ret: e})
				s = mk("panic")
				e = ai.NewSym("panic", ai.TAny)
				s.Assume(ai.App("isnil", ai.TBool, e), false)
				old := h.st
				h.st = mk("return")
				_, _, k := h.play(rd, p, func(int, string) *T { return v }, false)
				s2 := h.st
				h.st = old
				if !k {
					return outs
				}
				args, _ := h.argsFor(ret, p, nil)
				for _, o := range h.m.CallValue(ret, args, s2) {
					if o.Panic != nil {
						s.Assume(s.Eq(e, o.Panic), false)
						outs = append(outs, o)
					}
				}
				outs = append(outs, ai.Outcome{St: s, Panic: e})
				return outs
			}
			h.m.Key = func(st *S) string {
				if p := st.Ghost["done"]; p != nil {
					return p.String()
				}
				return ""
			}
			args, _ := h.argsFor(fn, ip, nil)
			outs := h.m.CallValue(fn, args, h.st)
			h.onEval, h.m.Key = nil, nil
			seen := map[string]bool{}
			for _, x := range evs {
				done, _ := ai.StrVal(x.st.Ghost["done"])
				seen[done] = true
				switch {
				case done == "end" || done == "" && codes[0].empty:
					h.m.Check(x.st, x.st.EQ(x.code, ai.Int(0)), x.pos, "%s: the exit code is %s when the body ends", what, x.code)
				case done == "return" && rc.code != nil:
					h.m.Check(x.st, x.st.EQ(x.code, rc.code(v)), x.pos, "%s: the exit code is %s", what, x.code)
				default:
					h.m.Check(x.st, false, x.pos, "%s: the process ends after %q", what, done)
				}
			}
			for _, o := range outs {
				done, _ := ai.StrVal(o.St.Ghost["done"])
				h.m.Check(o.St, o.Panic != nil && (done == "error" || done == "panic" || done == "return" && rc.code == nil), pos, "%s: the script goes on after %q", what, done)
			}
			want := []string{"end"}
			if codes[0].empty {
				want = []string{""}
			} else if rc.code != nil {
				want = append(want, "return")
			}
			for _, w := range want {
				h.m.Check(h.st, seen[w], pos, "%s: the process is not ended after %q", what, w)
			}
			h.absorb("main")
		}
	}
	h.c.Case("%d cases of main", cases)
}
