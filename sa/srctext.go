package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("S09", "Source and FileLine of package tpl and the rendering of match errors and run-time errors are interpreted on arbitrary tokens, with the position table of the file as functions of the position; the methods of the engine are interpreted with tpl.Source and tpl.FileLine as events", checkSourceText)
}

// srcH interprets functions of a token slice and its source.
type srcH struct {
	c              *Ctx
	m              *ai.Machine
	tokT, tsT      types.Type
	doc, scn, file *T
	ctx, g         *T
	text           *T
	n              *T
	texts          map[*T]bool
	pi             int
	posT           types.Type
}

func newSrcH(c *Ctx) (*srcH, *S) {
	h := &srcH{c: c, tokT: c.Type("tpl", "Token"), tsT: c.Type("tpl", "TokenSource")}
	tT, cT, gT := c.Type("tpl", "Tokener"), c.Type("tpl", "Context"), c.Type("tpl", "Grammar")
	if h.tokT == nil || h.tsT == nil || tT == nil || cT == nil || gT == nil {
		return nil, nil
	}
	st := c.P.Base("tpl", "tpl/interpreter", relUtil)
	sym := func(name string, t types.Type) *T {
		s := ai.NewSym(name, t)
		st.Assume(ai.App("isnil", ai.TBool, s), false)
		return s
	}
	h.doc = ai.NewSym("doc", types.NewSlice(h.tokT))
	_, _, n, cp := st.SliceParts(h.doc)
	h.n = n
	st.Assume(ai.GE0(ai.LinOf(n)), true)
	st.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(cp, n), -1))), true)
	h.scn, h.ctx, h.g = sym("scanner", tT), sym("ctx", cT), sym("grammar", gT)
	ts := ai.NewSym("source", h.tsT)
	fi, fft := fieldIdx(h.tsT, "File")
	si, sft := fieldIdx(h.tsT, "Src")
	h.pi, h.posT = fieldIdx(h.tokT, "Pos")
	if fi < 0 || si < 0 || h.pi < 0 {
		c.Missing("the fields File and Src of TokenSource and Pos of Token")
		return nil, nil
	}
	h.file, h.text = st.Field(ts, fi, fft), st.Field(ts, si, sft)
	st.Assume(ai.App("isnil", ai.TBool, h.file), false)
	h.m = c.Machine()
	h.m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		one := func(r *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: r}}, true }
		switch {
		case ci.Method != nil && ci.Recv == h.ctx && ci.Method.Name() == "Tokener":
			return one(h.scn)
		case ci.Method != nil && ci.Recv == h.scn && ci.Method.Name() == "Source":
			return one(ts)
		case ci.Method != nil && (ci.Recv == h.scn || ci.Recv == h.g):
			return one(ai.FreshVal(st, "code", ci.Sig.Results().At(0).Type()))
		case ci.Fn == nil:
			return nil, false
		}
		switch s := ci.Fn.String(); s {
		case "(*go/token.File).Offset", "(*go/token.File).Line", "(*go/token.File).Name":
			m.Check(st, ci.Args[0] == h.file, ci.Pos(), "the position table is that of another source")
			v := ai.App(ci.Fn.Name(), ci.Fn.Signature.Results().At(0).Type(), ci.Args[1:]...)
			if ci.Fn.Name() == "Offset" {
				st.Assume(ai.GE0(ai.LinOf(v)), true)
				st.Assume(ai.GE0(ai.LinOf(ai.Sub(st.Len(h.text), v))), true)
			}
			return one(v)
		case "(*go/token.File).Position":
			m.Check(st, ci.Args[0] == h.file, ci.Pos(), "the position table is that of another source")
			pt := ci.Fn.Signature.Results().At(0).Type()
			fs := make([]*T, pt.Underlying().(*types.Struct).NumFields())
			for i := range fs {
				f := pt.Underlying().(*types.Struct).Field(i)
				name, args := f.Name(), ci.Args[1:2]
				if name == "Filename" {
					name, args = "Name", nil
				}
				fs[i] = ai.App(name, f.Type(), args...)
			}
			v := ai.StructT(pt, fs)
			return one(v)
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "fmt.Errorf":
			list := ci.Args[len(ci.Args)-1]
			if k, ok := ai.IntVal(st.Len(list)); ok {
				arr, lo, _, _ := st.SliceParts(list)
				for i := int64(0); i < k; i++ {
					h.formatted(st, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(ai.TAny)), ai.TAny))
				}
			}
			if ci.Fn.Name()[0] == 'S' {
				return one(h.rendered(st))
			}
		case "strconv.Itoa", "strconv.FormatInt":
			h.note(st, "int", ci.Args[0])
			return one(h.rendered(st))
		}
		return nil, false
	}
	return h, st
}

// rendered is a text made by fmt or strconv.
func (h *srcH) rendered(st *S) *T {
	v := ai.FreshVal(st, "text", ai.TString)
	if h.texts == nil {
		h.texts = map[*T]bool{}
	}
	h.texts[v] = true
	return v
}

// note records a formatted value on a path.
func (h *srcH) note(st *S, kind string, x *T) {
	n := len(h.noted(st, kind))
	st.Ghost[fmt.Sprintf("%s%d", kind, n)] = x
	st.Ghost[kind+"s"] = ai.Int(int64(n + 1))
}

func (h *srcH) noted(st *S, kind string) (out []*T) {
	if c := st.Ghost[kind+"s"]; c != nil {
		n, _ := ai.IntVal(c)
		for i := int64(0); i < n; i++ {
			out = append(out, st.Ghost[fmt.Sprintf("%s%d", kind, i)])
		}
	}
	return
}

// formatted notes a formatted value.
func (h *srcH) formatted(st *S, v *T) {
	t := st.KnownType(v)
	if b, ok := t.(*types.Basic); ok {
		x := ai.Unbox(v, t)
		switch {
		case b.Info()&types.IsInteger != 0:
			h.note(st, "int", x)
		case b.Info()&types.IsString != 0:
			h.note(st, "str", x)
		}
	}
}

// pos is the position of token i.
func (h *srcH) pos(st *S, i *T) *T {
	arr, lo, _, _ := st.SliceParts(h.doc)
	a := ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(h.tokT))
	return st.Load(ai.FieldAddr(a, h.pi, types.NewPointer(h.posT)), h.posT)
}

func (h *srcH) line(st *S, i *T) *T { return ai.App("Line", ai.TInt, h.pos(st, i)) }

// cases splits into no tokens and some.
func (h *srcH) cases(st *S, f func(st *S, empty bool)) {
	e := st.Clone()
	st = st.Clone()
	st.Assume(ai.GE0(ai.LinOf(ai.AddK(h.n, -1))), true)
	e.Assume(ai.EQ0(ai.LinOf(h.n)), true)
	f(st, false)
	f(e, true)
}

func (h *srcH) run(st *S, fn *ssa.Function, args []*T, what string, f func(o ai.Outcome)) {
	h.m.RuntimePanics = false
	n := 0
	for _, o := range h.m.Run(fn, args, nil, st) {
		if h.m.Check(o.St, o.Panic == nil, fn.Pos(), "%s panics", what) {
			n++
			f(o)
		}
	}
	h.m.Check(st, n > 0, fn.Pos(), "%s has no result", what)
}

func checkSourceText(c *Ctx) {
	c.Rule("the source text of tokens is the part of the source from the position of the first of them to that of the token behind the last one, and nothing for no tokens; their file and line are the name of the file and the line of the first one, \"\" and 0 for no tokens; the line of a rendered match error is that of the token it failed at, and file and line of a rendered run-time error are those of its tokens; the methods of the engine yield the same for tokens and nothing for nil")
	h, st := newSrcH(c)
	src, fl := c.Func("tpl", "Source"), c.Func("tpl", "FileLine")
	if h == nil || src == nil || fl == nil {
		return
	}
	h.cases(st, func(st *S, empty bool) {
		h.run(st, src, []*T{h.doc, h.scn}, "Source", func(o ai.Outcome) {
			if empty {
				h.m.Check(o.St, o.St.EQ(o.St.Len(o.Ret), ai.Int(0)), src.Pos(), "the source text of no tokens has the length %s", o.St.Len(o.Ret))
				return
			}
			arr, lo, n, _ := o.St.SliceParts(o.Ret)
			arr0, lo0, _, _ := o.St.SliceParts(h.text)
			from := ai.App("Offset", ai.TInt, h.pos(o.St, ai.Int(0)))
			to := ai.App("Offset", ai.TInt, h.pos(o.St, h.n))
			h.m.Check(o.St, arr == arr0 && o.St.EQ(lo, ai.Add(lo0, from)), src.Pos(), "the source text of tokens starts at %s", lo)
			h.m.Check(o.St, o.St.EQ(n, ai.Sub(to, from)), src.Pos(), "the source text of tokens has the length %s", n)
		})
		h.run(st, fl, []*T{h.doc, h.scn}, "FileLine", func(o ai.Outcome) {
			name, line := o.Ret.Args[0], o.Ret.Args[1]
			if empty {
				s, ok := ai.StrVal(name)
				h.m.Check(o.St, ok && s == "" && o.St.EQ(line, ai.Int(0)), fl.Pos(), "file and line of no tokens are %s and %s", name, line)
				return
			}
			h.m.Check(o.St, o.St.Same(name, ai.App("Name", ai.TString)), fl.Pos(), "the file of tokens is %s", name)
			h.m.Check(o.St, o.St.Same(line, h.line(o.St, ai.Int(0))), fl.Pos(), "the line of tokens is %s", line)
		})
	})
	c.Absorb("tokens", h.m)
	// errors
	for _, kind := range []string{"MatchError", "RuntimeError"} {
		rel := "tpl"
		if kind == "RuntimeError" {
			rel = "tpl/interpreter"
		}
		h, st := newSrcH(c)
		eT, fn := c.Type(rel, kind), c.Method(rel, kind, "Error")
		if eT == nil || fn == nil {
			continue
		}
		e := ai.NewObj("error", eT)
		st.Store(e, ai.Zero(eT), eT)
		setField(st, e, eT, "Src", h.doc)
		setField(st, e, eT, "Ctx", h.ctx)
		setField(st, e, eT, "Grammar", h.g)
		inner := ai.NewSym("inner", ai.TError)
		setField(st, e, eT, "Err", inner)
		at := ai.Int(0)
		if kind == "MatchError" {
			at = ai.NewSym("at", ai.TInt)
			st.Assume(ai.GE0(ai.LinOf(at)), true)
			st.Assume(ai.GE0(ai.LinOf(ai.Sub(h.n, at))), true)
			setField(st, e, eT, "IdxErr", at)
		}
		for _, noErr := range []bool{false, true} {
			s := st.Clone()
			if kind == "RuntimeError" && noErr {
				continue
			}
			s.Assume(ai.App("isnil", ai.TBool, inner), noErr)
			h.cases(s, func(st *S, empty bool) {
				h.run(st, fn, []*T{e}, kind+".Error", func(o ai.Outcome) {
					ints, strs := h.noted(o.St, "int"), h.noted(o.St, "str")
					h.m.Check(o.St, len(ints) > 0, fn.Pos(), "a rendered %s has no line", kind)
					for _, x := range ints {
						ok := o.St.Same(x, h.line(o.St, at))
						if empty {
							ok = o.St.EQ(x, ai.Int(0))
						}
						h.m.Check(o.St, ok, fn.Pos(), "a rendered %s has the line %s", kind, x)
					}
					if kind == "RuntimeError" {
						named := false
						for _, x := range append(strs, o.Ret) {
							for x != nil {
								rest := (*T)(nil)
								if x.K == ai.KApp && x.Name == "concat" {
									x, rest = x.Args[0], x.Args[1]
								}
								named = named || o.St.Same(x, ai.App("Name", ai.TString))
								_, known := ai.StrVal(x)
								h.m.Check(o.St, known || o.St.Same(x, ai.App("Name", ai.TString)) || h.texts[x], fn.Pos(), "a rendered run-time error has the file %s", x)
								x = rest
							}
						}
						if !empty && !named {
							name := o.St.Len(ai.App("Name", ai.TString))
							h.m.Check(o.St, o.St.EQ(name, ai.Int(0)) || o.St.Eval(o.St.Eq(ai.App("Name", ai.TString), ai.Str(""))) > 0, fn.Pos(), "a rendered run-time error lacks the name of the file")
						}
					}
				})
			})
		}
		c.Absorb(kind, h.m)
	}
	engineSource(c)
}

// engineSource interprets Source and FileLine of the engine.
func engineSource(c *Ctx) {
	engT, tokT := c.Type(relInterp, "Engine"), c.Type("tpl", "Token")
	if engT == nil || tokT == nil {
		return
	}
	for _, name := range []string{"Source", "FileLine"} {
		fn := c.Method(relInterp, "Engine", name)
		if fn == nil {
			continue
		}
		st := c.P.Base("tpl", relInterp, relUtil)
		m := c.Machine()
		eng := ai.NewSym("engine", types.NewPointer(engT))
		st.Assume(ai.App("isnil", ai.TBool, eng), false)
		doc := ai.NewSym("doc", types.NewSlice(tokT))
		var ret *T
		var scn []*T
		m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn != nil && ci.Fn.Pkg == c.P.Pkg("tpl") && ci.Fn.Name() == name && ci.Fn.Signature.Recv() == nil {
				m.Check(st, ci.Args[0] == doc, ci.Pos(), "%s of the engine is about other tokens", name)
				ret = ai.FreshTuple(st, ci.Fn.Signature.Results(), "ret")
				scn = append(scn, ci.Args[1])
				return []ai.Outcome{{St: st, Ret: ret}}, true
			}
			return nil, false
		}
		for _, isNil := range []bool{true, false} {
			arg := ai.Nil(ai.TAny)
			if !isNil {
				arg = ai.Iface(types.NewSlice(tokT), doc, ai.TAny)
			}
			ret, scn = nil, nil
			outs := m.Run(fn, []*T{eng, arg}, nil, st.Clone())
			for _, o := range outs {
				if !m.Check(o.St, o.Panic == nil, fn.Pos(), "%s of the engine panics", name) {
					continue
				}
				if isNil {
					z := ai.Zero(fn.Signature.Results().At(0).Type())
					m.Check(o.St, len(scn) == 0 && (o.St.Same(o.Ret, z) || name == "Source" && o.St.EQ(o.St.Len(o.Ret), ai.Int(0))), fn.Pos(), "%s of the engine yields %s for nil", name, o.Ret)
					continue
				}
				ok := len(scn) == 1 && ret != nil
				if ok && name == "Source" {
					ok = o.St.Same(o.Ret, ret)
				} else if ok {
					t := fn.Signature.Results().At(0).Type()
					for i, f := range []string{"File", "Line"} {
						k, ft := fieldIdx(t, f)
						ok = ok && k >= 0 && o.St.Same(o.St.Field(o.Ret, k, ft), ret.Args[i])
					}
				}
				m.Check(o.St, ok, fn.Pos(), "%s of the engine does not yield that of the tokens", name)
			}
			m.Check(st, len(outs) > 0, token.NoPos, "%s of the engine has no result", name)
		}
		c.Absorb("Engine."+name, m)
	}
}
