package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/sa/ai"
)

const relUtil = "tpl/interpreter.util"

func init() {
	register("I06", "the grammars and function tables of all types of the module that implement the interface of interpreters are evaluated from the source; their rule texts are read and every mark, rule and token in them is resolved", checkMarks)
}

// langT is a type that implements the interface of interpreters.
type langT struct {
	rel   string
	name  string
	t     types.Type // the named type; its pointer implements the interface
	stk   types.Type // dynamic type of Stack()
	g     *gspec
	table *T
	mt    types.Type
	base  *S
}

// relOf is the path of a package below the module.
func relOf(c *Ctx, p *types.Package) (string, bool) {
	mod := strings.TrimSuffix(c.P.Pkg("tpl").Pkg.Path(), "/tpl")
	if p.Path() == mod {
		return ".", true
	}
	return strings.TrimPrefix(p.Path(), mod+"/"), strings.HasPrefix(p.Path(), mod+"/")
}

// languages finds the interpreters of the module.
func languages(c *Ctx) []*langT {
	it := c.Type(relUtil, "Interface")
	if it == nil {
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		c.Missing("the interface of interpreters")
		return nil
	}
	var out []*langT
	for _, pk := range c.P.Prog.AllPackages() {
		rel, ok := relOf(c, pk.Pkg)
		if !ok {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), iface) && !promotes(tn.Type(), iface) {
				out = append(out, &langT{rel: rel, name: n, t: tn.Type()})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].rel+out[i].name < out[j].rel+out[j].name })
	var res []*langT
	for _, l := range out {
		l.base = qBase(c)
		if !strings.HasPrefix(l.rel+"/", relQlang+"/") {
			l.base = c.P.Base("tpl", l.rel)
		}
		if l.g = grammarOf(c, l.base, l.rel, l.name); l.g == nil {
			continue
		}
		get := func(name string) *T {
			fn := ai.MethodOf(c.P.Prog, types.NewPointer(l.t), c.P.Pkg(l.rel).Pkg, name)
			if fn == nil {
				c.Missing("method " + name + " of " + l.rel + "." + l.name)
				return nil
			}
			m := c.Machine()
			st := l.base.Clone()
			ip := ai.NewSym("ip", types.NewPointer(l.t))
			st.Assume(ai.App("isnil", ai.TBool, ip), false)
			outs := m.Run(fn, []*T{ip}, nil, st)
			c.Absorb(name, m)
			if len(outs) != 1 || outs[0].Ret == nil {
				c.Missing("the value of " + name + " of " + l.rel + "." + l.name)
				return nil
			}
			if l.mt == nil {
				l.mt = fn.Signature.Results().At(0).Type()
			}
			return outs[0].Ret
		}
		if l.table = get("Fntable"); l.table == nil {
			continue
		}
		s := get("Stack")
		if s == nil {
			continue
		}
		if s.K != ai.KIface {
			c.Missing("the type of the stack of " + l.rel)
			continue
		}
		l.stk = s.Typ
		res = append(res, l)
	}
	return res
}

// fn is the function bound to a name of the table.
func (l *langT) fn(key string) *T { return tableFn(l.base, l.table, l.mt, key) }

func (l *langT) has(key string) bool {
	h, _ := l.base.MapHas(l.table, ai.Str(key), l.mt)
	return h > 0
}

// engineMarks are the marks the engine handles itself.
var engineMarks = map[string]bool{"_mute": true, "_unmute": true, "_tr": true}

// isLenMark: the mark asks for the length of its grammar.
func isLenMark(mark string) bool {
	s := strings.TrimPrefix(mark, "_")
	return s != "" && s[0] >= 'A' && s[0] <= 'Z'
}

func isError(t types.Type) bool { return types.Identical(t, errType()) }

// receiver tells what a handler works on: 's' the stack, 'i' the interpreter,
// 0 plain values.
func (l *langT) recv(sig *types.Signature) byte {
	if ai.NumIn(sig) == 0 {
		return 0
	}
	switch t := ai.ParamType(sig, 0); {
	case types.Identical(t, l.stk):
		return 's'
	case types.Identical(t, types.NewPointer(l.t)):
		return 'i'
	}
	return 0
}

// promotes: the interface is that of an embedded interpreter.
func promotes(t types.Type, iface *types.Interface) bool {
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() && types.Implements(f.Type(), iface) {
			return true
		}
	}
	return false
}

func checkMarks(c *Ctx) {
	c.Rule("every mark of a shipped grammar is one of the engine's own or bound to a non-variadic function with a parameter; one that works on the stack or the interpreter has at most three parameters, no result but an error, and its second parameter is an int for a mark that asks for a length, of a marked grammar that has one, else a context, the source, the engine, or a text or number that the marked grammar always supplies; the third is a context; every rule that is used is defined, every token exists, and doc is defined before it is used")
	ls := languages(c)
	l2t := c.Func("tpl", "Lit2Token")
	illegal := constVal(c, "tpl", "ILLEGAL")
	engT, ctxT := c.Type(relUtil, "Engine"), c.Type(relUtil, "Context")
	if l2t == nil || engT == nil || ctxT == nil {
		return
	}
	c.Must(len(ls) >= 4, token.NoPos, "", "only %d interpreters are found", len(ls))
	toks := map[string]int64{}
	tokOf := func(raw string) int64 {
		if v, ok := toks[raw]; ok {
			return v
		}
		r, pan := evalPure(c, l2t, ai.Str(raw))
		v := illegal
		if r != nil && pan == nil {
			v, _ = ai.IntVal(r)
		} else {
			c.Violate(l2t.Pos(), "", "cannot be decided: the token of "+raw+" is not known", nil)
		}
		toks[raw] = v
		return v
	}
	marks := 0
	for _, l := range ls {
		gpos := token.NoPos
		if f := ai.MethodOf(c.P.Prog, types.NewPointer(l.t), c.P.Pkg(l.rel).Pkg, "Grammar"); f != nil {
			gpos = f.Pos()
		}
		must := func(ok bool, pos token.Pos, f string, a ...interface{}) bool {
			return c.Must(ok, pos, l.rel, f, a...)
		}
		// rules
		must(l.g.rules["doc"] != nil, gpos, "the grammar has no rule doc")
		at := map[string]int{}
		for i, r := range l.g.order {
			at[r] = i
		}
		for _, r := range l.g.refs {
			must(l.g.rules[r.name] != nil, gpos, "the rule %s uses %s, which is not defined", r.in, r.name)
			if r.name == "doc" {
				must(at[r.in] > at["doc"], gpos, "the rule %s uses doc before it is defined", r.in)
			}
		}
		// tokens
		var walk func(n *rnode, rule string)
		walk = func(n *rnode, rule string) {
			if n.k == 't' && n.raw != "" {
				id := isIdent(n.name)
				switch {
				case n.raw[0] == '"' && id: // a keyword
					c.Oblig++
				default:
					must(tokOf(n.raw) != illegal, gpos, "the rule %s uses the token %s, which does not exist", rule, n.raw)
				}
			}
			for _, k := range n.kids {
				walk(k, rule)
			}
		}
		for _, r := range l.g.order {
			walk(l.g.rules[r], r)
		}
		// marks
		dv := &deriver{g: l.g, atomic: map[string]bool{}, max: 1}
		for _, r := range l.g.order {
			dv.atomic[r] = true
		}
		for _, r := range l.g.order {
			l.g.rules[r].marks(func(mark string, of *rnode) {
				marks++
				if !l.has("$" + mark) {
					must(engineMarks[mark], gpos, "the mark %s in the rule %s is not bound", mark, r)
					return
				}
				fn := l.fn("$" + mark)
				if !must(fn != nil, gpos, "the mark %s in the rule %s is not bound to a function", mark, r) {
					return
				}
				sig, ok := fn.Typ.Underlying().(*types.Signature)
				pos := fnPos(fn)
				n := ai.NumIn(sig)
				if !must(ok && n > 0, pos, "the function bound to %s has no parameter", mark) {
					return
				}
				must(!sig.Variadic(), pos, "the function bound to %s is variadic", mark)
				if l.recv(sig) == 0 {
					return
				}
				must(n <= 3, pos, "the function bound to %s has %d parameters", mark, n)
				res := sig.Results()
				must(res.Len() == 0 || res.Len() == 1 && isError(res.At(0).Type()), pos, "the function bound to %s has results the engine does not take", mark)
				if n >= 3 {
					must(types.AssignableTo(types.NewPointer(ctxT), ai.ParamType(sig, 2)), pos, "the third parameter of the function bound to %s does not take a context", mark)
				}
				if n < 2 {
					return
				}
				t := ai.ParamType(sig, 1)
				if isLenMark(mark) {
					must(types.Identical(t, ai.TInt), pos, "the function bound to %s does not take a length", mark)
					for _, d := range dv.of(of, true) {
						must(d.n >= 0, gpos, "the mark %s in the rule %s asks for the length of a grammar that has none (%s)", mark, r, d.text)
					}
					return
				}
				switch {
				case types.Identical(t, types.NewPointer(ctxT)), types.Identical(t, engT):
					return
				case types.IsInterface(t):
					must(t.Underlying().(*types.Interface).Empty(), pos, "the engine cannot supply the second parameter of the function bound to %s", mark)
					return
				}
				b, _ := t.(*types.Basic)
				if !must(b != nil && (b.Kind() == types.String || b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Float64), pos, "the engine cannot supply the second parameter of the function bound to %s", mark) {
					return
				}
				first := map[string]bool{}
				null := l.g.first(of, first, map[string]bool{})
				must(!null && len(first) > 0, gpos, "the mark %s in the rule %s needs a token, but its grammar can match none", mark, r)
				for t := range first {
					switch b.Kind() {
					case types.Int, types.Int64:
						must(t == "INT", gpos, "the mark %s in the rule %s needs an integer, but its grammar can match %s", mark, r, t)
					case types.Float64:
						must(t == "INT" || t == "FLOAT", gpos, "the mark %s in the rule %s needs a number, but its grammar can match %s", mark, r, t)
					}
				}
			})
		}
		c.Case("%s.%s: %d rules, %d references", l.rel, l.name, len(l.g.order), len(l.g.refs))
	}
	c.Case("%d marks of %d grammars", marks, len(ls))
}

func isIdent(s string) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

// first collects the tokens a grammar can start with; it tells whether the
// grammar can match no token.
func (g *gspec) first(n *rnode, out, busy map[string]bool) bool {
	switch n.k {
	case '1', '~', '@':
		return true
	case 't':
		out[n.name] = true
		return false
	case 'r':
		if busy[n.name] || g.rules[n.name] == nil {
			return false
		}
		busy[n.name] = true
		defer delete(busy, n.name)
		return g.first(g.rules[n.name], out, busy)
	case 's':
		for _, k := range n.kids {
			if !g.first(k, out, busy) {
				return false
			}
		}
		return true
	case '|':
		null := false
		for _, k := range n.kids {
			null = g.first(k, out, busy) || null
		}
		return null
	case '?', '*', '=':
		g.first(n.kids[0], out, busy)
		return true
	}
	return g.first(n.kids[0], out, busy)
}
