package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// gnode is a grammar built by code under analysis.
type gnode struct {
	op   string // constructor name
	pos  token.Pos
	args []*T // operands (a slice operand stands for its elements)
	list *T   // slice operand of And and Or when its length is not known
	els  func(i *T) *T
	n    *T
}

// builder turns calls of the exported grammar constructors into nodes.
type builder struct {
	c     *Ctx
	gT    types.Type
	nodes map[*T]*gnode
}

var ctors = map[string]bool{"And": true, "Or": true, "Gr": true, "Action": true, "Transaction": true, "List": true, "List0": true,
	"Repeat0": true, "Repeat1": true, "Repeat01": true, "Not": true, "Peek": true, "Named": true}

func newBuilder(c *Ctx) *builder {
	return &builder{c: c, gT: c.Type("tpl", "Grammar"), nodes: map[*T]*gnode{}}
}

// node looks up the node of a value.
func (b *builder) node(x *T) *gnode {
	if x == nil {
		return nil
	}
	if x.K == ai.KIface {
		return b.nodes[x.Args[0]]
	}
	return b.nodes[x]
}

// hook handles constructor calls.
func (b *builder) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	fn := ci.Fn
	if fn == nil || fn.Pkg == nil || fn.Pkg != b.c.P.Pkg("tpl") || fn.Signature.Recv() != nil || !ctors[fn.Name()] {
		return nil, false
	}
	if fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	rt := fn.Signature.Results().At(0).Type()
	var res *T
	if types.IsInterface(rt) {
		res = ai.NewSym(fn.Name(), rt)
		st.Assume(ai.App("isnil", ai.TBool, res), false)
	} else {
		res = ai.NewObj(fn.Name(), rt.(*types.Pointer).Elem())
	}
	n := &gnode{op: fn.Name(), pos: ci.Pos()}
	for i, a := range ci.Args {
		if fn.Signature.Variadic() && i == fn.Signature.Params().Len()-1 {
			arr, lo, cnt, _ := st.SliceParts(a)
			n.list, n.n = a, cnt
			pt := types.NewPointer(b.gT)
			snap := st.Clone()
			n.els = func(i *T) *T {
				return snap.Load(ai.IndexAddr(arr, ai.Add(lo, i), pt), b.gT)
			}
			if k, ok := ai.IntVal(cnt); ok {
				for j := int64(0); j < k; j++ {
					n.args = append(n.args, n.els(ai.Int(j)))
				}
				n.list = nil
			}
			continue
		}
		n.args = append(n.args, a)
	}
	b.nodes[res] = n
	return []ai.Outcome{{St: st, Ret: res}}, true
}

// gtree is a grammar expression of the rule language.
type gtree struct {
	op   string
	tok  int64
	kids []*gtree
	act  string // label of an action
	v    *gtree // target of a variable reference (op "var")
	name string
	pos  token.Pos
}

// decode reads the structure of a constructed grammar.
func (b *builder) decode(st *S, x *T, vars map[*T]*gtree, label func(n *gnode) string) (*gtree, error) {
	if st.Eval(st.IsNil(x)) > 0 {
		return &gtree{op: "nil"}, nil
	}
	u := x
	if u.K == ai.KIface {
		u = u.Args[0]
	}
	if n := b.nodes[u]; n != nil {
		t := &gtree{op: n.op, pos: n.pos}
		switch n.op {
		case "Gr":
			k, ok := ai.IntVal(n.args[0])
			if !ok {
				return nil, fmt.Errorf("the token of a grammar is not a constant")
			}
			t.tok = k
			return t, nil
		case "Named":
			return b.decode(st, n.args[1], vars, label)
		case "And", "Or":
			if n.list != nil {
				return nil, fmt.Errorf("the number of operands of %s is not known", n.op)
			}
			for _, a := range n.args {
				k, err := b.decode(st, a, vars, label)
				if err != nil {
					return nil, err
				}
				t.kids = append(t.kids, k)
			}
			return t, nil
		case "Action", "Transaction":
			t.act = label(n)
			k, err := b.decode(st, n.args[0], vars, label)
			t.kids = []*gtree{k}
			return t, err
		}
		for _, a := range n.args {
			k, err := b.decode(st, a, vars, label)
			if err != nil {
				return nil, err
			}
			t.kids = append(t.kids, k)
		}
		return t, nil
	}
	vT := b.c.Type("tpl", "GrVar")
	if u.K == ai.KObj && u.Typ != nil {
		if p, ok := u.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), vT) {
			if v := vars[u]; v != nil {
				return &gtree{op: "var", v: v}, nil
			}
			v := &gtree{op: "body"}
			vars[u] = v
			k, err := b.decode(st, getField(st, u, vT, "Elem"), vars, label)
			if err != nil {
				return nil, err
			}
			v.kids = []*gtree{k}
			return &gtree{op: "var", v: v}, nil
		}
	}
	if st.Same(x, globalVal(b.c, st, "tpl", "GrTrue")) {
		return &gtree{op: "GrTrue"}, nil
	}
	if st.Same(x, globalVal(b.c, st, "tpl", "GrEOF")) {
		return &gtree{op: "GrEOF"}, nil
	}
	return nil, fmt.Errorf("a grammar of unknown structure: %s", x)
}

// ---- grammar analysis: nullable, first and follow sets

type ganal struct {
	null  map[*gtree]bool
	first map[*gtree]map[int64]bool
	foll  map[*gtree]map[int64]bool // of bodies
	diff  bool
}

func analyse(root *gtree) *ganal {
	g := &ganal{null: map[*gtree]bool{}, first: map[*gtree]map[int64]bool{}, foll: map[*gtree]map[int64]bool{}}
	for {
		g.diff = false
		g.walk(root, map[*gtree]bool{})
		if !g.diff {
			return g
		}
	}
}

func (g *ganal) set(t *gtree, null bool, fs ...map[int64]bool) {
	if null && !g.null[t] {
		g.null[t], g.diff = true, true
	}
	if g.first[t] == nil {
		g.first[t] = map[int64]bool{}
	}
	for _, f := range fs {
		for k := range f {
			if !g.first[t][k] {
				g.first[t][k], g.diff = true, true
			}
		}
	}
}

func (g *ganal) walk(t *gtree, seen map[*gtree]bool) {
	for _, k := range t.kids {
		g.walk(k, seen)
	}
	switch t.op {
	case "Gr":
		g.set(t, false, map[int64]bool{t.tok: true})
	case "nil", "GrTrue", "GrEOF", "Not", "Peek":
		g.set(t, true)
	case "And":
		null := true
		for _, k := range t.kids {
			if null {
				g.set(t, false, g.first[k])
			}
			null = null && g.null[k]
		}
		g.set(t, null)
	case "Or":
		for _, k := range t.kids {
			g.set(t, g.null[k], g.first[k])
		}
	case "Repeat0", "Repeat01", "List0":
		g.set(t, true, g.first[t.kids[0]])
	case "Repeat1", "List", "Action", "Transaction", "body":
		g.set(t, g.null[t.kids[0]], g.first[t.kids[0]])
	case "var":
		if !seen[t.v] {
			seen[t.v] = true
			g.walk(t.v, seen)
		}
		g.set(t, g.null[t.v], g.first[t.v])
	}
}

func inter(a, b map[int64]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func union(ms ...map[int64]bool) map[int64]bool {
	o := map[int64]bool{}
	for _, m := range ms {
		for k := range m {
			o[k] = true
		}
	}
	return o
}

// ll1 reports choices that one token does not decide.
func (g *ganal) ll1(root *gtree) []string {
	var bad []string
	for round := 0; ; round++ {
		bad = nil
		g.diff = false
		seen := map[*gtree]bool{}
		var walk func(t *gtree, fol map[int64]bool)
		walk = func(t *gtree, fol map[int64]bool) {
			switch t.op {
			case "And":
				for i, k := range t.kids {
					f, null := map[int64]bool{}, true
					for _, r := range t.kids[i+1:] {
						if null {
							f = union(f, g.first[r])
						}
						null = null && g.null[r]
					}
					if null {
						f = union(f, fol)
					}
					walk(k, f)
				}
			case "Or":
				for i, k := range t.kids {
					for _, o := range t.kids[:i] {
						if inter(g.first[k], g.first[o]) {
							bad = append(bad, "two alternatives start with the same token")
						}
					}
					if g.null[k] {
						bad = append(bad, "an alternative can be empty")
					}
					walk(k, fol)
				}
			case "Repeat0", "Repeat1", "Repeat01":
				k := t.kids[0]
				if inter(g.first[k], fol) {
					bad = append(bad, "a repeated element starts with a token that may also follow the repetition")
				}
				if g.null[k] {
					bad = append(bad, "a repeated element can be empty")
				}
				f := fol
				if t.op != "Repeat01" {
					f = union(fol, g.first[k])
				}
				walk(k, f)
			case "List", "List0":
				a, b := t.kids[0], t.kids[1]
				if inter(g.first[b], fol) || t.op == "List0" && inter(g.first[a], fol) {
					bad = append(bad, "a list separator may also follow the list")
				}
				walk(a, union(fol, g.first[b]))
				walk(b, g.first[a])
			case "Action", "Transaction":
				walk(t.kids[0], fol)
			case "var":
				o := g.foll[t.v]
				n := union(o, fol)
				if len(n) > len(o) {
					g.foll[t.v], g.diff = n, true
				}
				if !seen[t.v] {
					seen[t.v] = true
					walk(t.v.kids[0], g.foll[t.v])
				}
			}
		}
		walk(root, map[int64]bool{-1: true})
		if !g.diff || round > 50 {
			return bad
		}
	}
}

// canon renders the structure with insignificant differences removed: nested
// sequences and choices are flattened, alternatives are ordered by the token
// that selects them, variables are named by their place.
func canon(root *gtree, g *ganal, tokName func(int64) string) string {
	ids := map[*gtree]string{}
	minTok := func(t *gtree) int64 {
		m := int64(1 << 40)
		for k := range g.first[t] {
			if k < m {
				m = k
			}
		}
		return m
	}
	var flat func(op string, t *gtree) []*gtree
	flat = func(op string, t *gtree) []*gtree {
		var out []*gtree
		for _, k := range t.kids {
			if k.op == op {
				hasNil := false
				for _, x := range k.kids {
					hasNil = hasNil || x.op == "nil"
				}
				if !hasNil {
					out = append(out, flat(op, k)...)
					continue
				}
			}
			out = append(out, k)
		}
		return out
	}
	var str func(t *gtree) string
	str = func(t *gtree) string {
		switch t.op {
		case "Gr":
			return tokName(t.tok)
		case "nil":
			return "!"
		case "And", "Or":
			ks := flat(t.op, t)
			if t.op == "Or" {
				sort.SliceStable(ks, func(i, j int) bool { return minTok(ks[i]) < minTok(ks[j]) })
			}
			var ss []string
			for _, k := range ks {
				ss = append(ss, str(k))
			}
			if len(ss) == 1 {
				return ss[0]
			}
			return "(" + strings.Join(ss, map[string]string{"And": " ", "Or": " | "}[t.op]) + ")"
		case "Repeat0", "Repeat1", "Repeat01", "Not", "Peek":
			return map[string]string{"Repeat0": "*", "Repeat1": "+", "Repeat01": "?", "Not": "~", "Peek": "@"}[t.op] + str(t.kids[0])
		case "List", "List0":
			return "(" + str(t.kids[0]) + map[string]string{"List": " % ", "List0": " %= "}[t.op] + str(t.kids[1]) + ")"
		case "Action":
			return str(t.kids[0]) + "/" + t.act
		case "Transaction":
			return str(t.kids[0]) + "/transaction " + t.act
		case "var":
			if id, ok := ids[t.v]; ok {
				return id
			}
			id := fmt.Sprintf("V%d", len(ids)+1)
			ids[t.v] = id
			return id + ":" + str(t.v.kids[0])
		}
		return t.op
	}
	return str(root)
}

// ---- the rule-language compiler

type compH struct {
	c         *Ctx
	m         *ai.Machine
	b         *builder
	st0       *S
	comp      *T
	compT     types.Type
	scanner   *T
	marker    *T
	mode      *T
	init      *T
	source    *T
	captured  *S
	dsl       *T
	dslMode   *T
	part      string
	markCalls int
	stkAddr   *T
	grams     *T
	vars      *T
	grT, vrT  types.Type
	tokT      types.Type
	after     func(st *S) // prepares the state behind the match of the rule text
	events    int
}

func newCompH(c *Ctx, part string, marker bool) *compH {
	h := &compH{c: c, m: c.Machine(), b: newBuilder(c), part: part}
	st := c.P.Base("tpl")
	h.compT = c.Type("tpl", "Compiler")
	h.tokT = c.Type("tpl", "Token")
	h.comp = ai.NewObj("compiler", h.compT)
	st.Store(h.comp, ai.Zero(h.compT), h.compT)
	h.scanner = ai.NewSym("scanner", c.Type("tpl", "Tokener"))
	st.Assume(ai.App("isnil", ai.TBool, h.scanner), false)
	_, mt := fieldIdx(h.compT, "Marker")
	_, it := fieldIdx(h.compT, "Init")
	_, smt := fieldIdx(h.compT, "ScanMode")
	h.marker = ai.Nil(mt)
	if marker {
		h.marker = funcSym(st, "marker", mt)
	}
	h.init = ai.NewSym("init", it)
	h.mode = ai.NewSym("mode", smt)
	h.source = ai.NewSym("ruleText", types.NewSlice(types.Typ[types.Byte]))
	setField(st, h.comp, h.compT, "Scanner", h.scanner)
	setField(st, h.comp, h.compT, "Marker", h.marker)
	setField(st, h.comp, h.compT, "Init", h.init)
	setField(st, h.comp, h.compT, "ScanMode", h.mode)
	setField(st, h.comp, h.compT, "Grammar", h.source)
	st.Ghost["matched"] = ai.Int(0)
	h.st0 = st
	gT := h.b.gT
	h.grT = types.NewMap(types.Typ[types.String], gT)
	h.vrT = types.NewMap(types.Typ[types.String], types.NewPointer(c.Type("tpl", "GrVar")))
	h.m.Hook = h.hook
	return h
}

func isMapT(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Map)
	return ok
}

func isMapObj(v *T, mt types.Type) bool {
	if v == nil || v.K != ai.KObj || v.Typ == nil {
		return false
	}
	t := v.Typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Identical(t.Underlying(), mt)
}

// locate finds the operand stack and the rule tables among the cells the
// compile actions share.
func (h *compH) locate(st *S) error {
	sl := types.NewSlice(h.b.gT)
	var stk, gs, vs []*T
	seen := map[*T]bool{}
	var reach func(x *T)
	reach = func(x *T) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.K == ai.KClosure || x.K == ai.KIface {
			for _, a := range x.Args {
				reach(a)
			}
			return
		}
		p, ok := x.Typ.(*types.Pointer)
		if !ok || ai.Root(x).K != ai.KObj {
			return
		}
		switch u := p.Elem().Underlying().(type) {
		case *types.Slice:
			if types.Identical(u, sl) {
				stk = append(stk, x)
			}
		case *types.Struct:
			if n := namedOf(p.Elem()); n != nil && n.Obj().Pkg() != nil && !ai.InRepo(n.Obj().Pkg().Path()) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				reach(ai.FieldAddr(x, i, types.NewPointer(u.Field(i).Type())))
			}
		case *types.Pointer, *types.Signature, *types.Interface:
			if isMapT(u) {
				return
			}
			reach(st.Load(x, p.Elem()))
		}
	}
	for _, n := range h.b.nodes {
		if n.op == "Action" || n.op == "Transaction" {
			for _, a := range n.args[1:] {
				reach(a)
			}
		}
	}
	for _, v := range st.Heap {
		add := func(l *[]*T, mt types.Type) {
			if isMapObj(v, mt) {
				for _, x := range *l {
					if x == v {
						return
					}
				}
				*l = append(*l, v)
			}
		}
		add(&gs, h.grT)
		add(&vs, h.vrT)
	}
	if len(stk) != 1 || len(gs) != 1 || len(vs) != 1 {
		return fmt.Errorf("the compile actions do not share one operand stack, one table of rules and one of variables (%d, %d, %d found)", len(stk), len(gs), len(vs))
	}
	h.stkAddr, h.grams, h.vars = stk[0], gs[0], vs[0]
	return nil
}

func (h *compH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if outs, ok := h.b.hook(m, st, ci); ok {
		return outs, true
	}
	if ci.Fn != nil && ci.Fn.Signature.Recv() != nil {
		n := namedOf(ci.Fn.Signature.Recv().Type())
		if n != nil && n.Obj().Name() == "Matcher" && n.Obj().Pkg().Path() == ai.RepoPrefix+"/tpl" {
			switch ci.Fn.Name() {
			case "MatchExactly", "Match", "Eval":
				return h.match(st, ci, n), true
			}
		}
	}
	if ci.Method != nil && ci.Recv == h.scanner && ci.Method.Name() == "Ltot" {
		tok := ai.App("ltot", ci.Sig.Results().At(0).Type(), ci.Args[0])
		st.Assume(ai.GE0(ai.LinOf(tok)), true)
		return []ai.Outcome{{St: st, Ret: tok}}, true
	}
	if ci.FnTerm != nil && ci.FnTerm == h.marker && len(ci.Args) == 2 {
		r := ai.App("marked", h.b.gT, ci.Args[0], ci.Args[1])
		if k, ok := st.Ghost["markCalls"]; ok {
			st.Ghost["markCalls"] = ai.AddK(k, 1)
		}
		return []ai.Outcome{{St: st, Ret: r}}, true
	}
	if ci.Method != nil && ci.Method.Name() == "Len" && ci.Recv == st.Ghost["g"] && ci.Recv != nil {
		return []ai.Outcome{{St: st, Ret: st.Ghost["m"]}}, true
	}
	return nil, false
}

// match is the match of the rule text against the rule language.
func (h *compH) match(st *S, ci *ai.CallInfo, n *types.Named) []ai.Outcome {
	h.events++
	pos := ci.Pos()
	mo := ci.Args[0]
	if h.captured == nil {
		h.captured = st.Clone()
		h.dsl = getField(st, mo, n, "Grammar")
		h.dslMode = getField(st, mo, n, "ScanMode")
	}
	src := ci.Args[1]
	if ci.Fn.Name() == "Eval" {
		src = st.Convert(src, ai.TString, types.NewSlice(types.Typ[types.Byte]))
	}
	h.m.Check(st, st.EQ(st.Ghost["matched"], ai.Int(0)), pos, "the rule text is matched more than once")
	h.m.Check(st, st.Same(src, h.source), pos, "something other than the rule text is compiled (%s)", src)
	h.m.Check(st, st.Same(getField(st, mo, n, "Scanner"), h.scanner), pos, "the rule text is not scanned with the scanner of the compiler")
	st.Ghost["matched"] = ai.Int(1)
	if err := h.locate(st); err != nil {
		h.m.Undecide("%v", err)
		return nil
	}
	// failure and abort
	err := ai.NewSym("ruleErr", ai.TError)
	sf, sp := st.Clone(), st.Clone()
	sf.Assume(ai.App("isnil", ai.TBool, err), false)
	sf.Ghost["ruleFailed"] = err
	p := ai.NewSym("abort", ai.TAny)
	sp.Assume(ai.App("isnil", ai.TBool, p), false)
	// success: the tables hold anything
	st.Dirty[h.grams] = 1
	st.Dirty[h.vars] = 1
	st.Store(h.stkAddr, ai.NewSym("stk", types.NewSlice(h.b.gT)), types.NewSlice(h.b.gT))
	if h.after != nil {
		h.after(st)
	}
	if ci.Fn.Name() == "Match" {
		next := ai.NewSym("next", ci.Fn.Signature.Results().At(0).Type())
		st.Ghost["left"] = next
		return []ai.Outcome{{St: st, Ret: ai.Tuple(next, ai.Nil(ai.TError))}, {St: sf, Ret: ai.Tuple(next, err)}, {St: sp, Panic: p}}
	}
	return []ai.Outcome{{St: st, Ret: ai.Nil(ai.TError)}, {St: sf, Ret: err}, {St: sp, Panic: p}}
}

func (h *compH) run() []ai.Outcome {
	fn := h.c.Method("tpl", "Compiler", "Cl")
	if fn == nil {
		return nil
	}
	return h.m.Run(fn, []*T{h.comp}, nil, h.st0)
}

// ---- effects of the compile actions

// actState prepares a state in which an action runs over any stack.
type actState struct {
	st     *S
	stk    *T // the stack before
	n      *T // its length
	arr    *T
	tokens *T
	lit    *T // text of the first token
	m      *T // Len of the grammar the action belongs to
	g      *T
}

func (h *compH) actState(prep func(a *actState) bool) *actState {
	a := &actState{st: h.captured.Clone()}
	st := a.st
	sl := types.NewSlice(h.b.gT)
	st.Dirty[h.grams] = 1
	st.Dirty[h.vars] = 1
	a.arr, a.n = ai.NewObj("stack", types.NewArray(h.b.gT, -1)), ai.NewSym("depth", ai.TInt)
	cp := ai.NewSym("cap", ai.TInt)
	st.Assume(ai.GE0(ai.LinOf(a.n)), true)
	st.Assume(ai.GE0(ai.LinOf(ai.Sub(cp, a.n))), true)
	st.Segs[a.arr] = []ai.Seg{{Lo: ai.Int(0), Hi: cp, Tmpl: ai.App("operand", h.b.gT, ai.Kappa())}}
	a.stk = ai.SliceT(sl, a.arr, ai.Int(0), a.n, cp)
	st.Store(h.stkAddr, a.stk, sl)
	a.g = ai.NewSym("g", h.b.gT)
	st.Assume(ai.App("isnil", ai.TBool, a.g), false)
	a.m = ai.NewSym("m", ai.TInt)
	st.Assume(ai.GE0(ai.LinOf(ai.AddK(a.m, -1))), true)
	st.Assume(ai.GE0(ai.LinOf(ai.Sub(a.n, a.m))), true)
	st.Ghost["g"], st.Ghost["m"] = a.g, a.m
	st.Ghost["markCalls"] = ai.Int(0)
	a.tokens = ai.NewSym("tokens", types.NewSlice(h.tokT))
	tarr, tlo, tn, _ := st.SliceParts(a.tokens)
	st.Assume(ai.GE0(ai.LinOf(ai.AddK(tn, -1))), true)
	i, ft := fieldIdx(h.tokT, "Literal")
	tok := st.Load(ai.IndexAddr(tarr, tlo, types.NewPointer(h.tokT)), h.tokT)
	a.lit = st.Field(tok, i, ft)
	if prep != nil && !prep(a) {
		return nil
	}
	return a
}

func (h *compH) stackOf(st *S) *T { return st.Load(h.stkAddr, types.NewSlice(h.b.gT)) }

func (h *compH) at(st *S, stk, i *T) *T {
	arr, lo, _, _ := st.SliceParts(stk)
	return st.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(h.b.gT)), h.b.gT)
}

// orig is an element of the stack before the action.
func (h *compH) orig(a *actState, i *T) *T { return ai.App("operand", h.b.gT, i) }

// below: the first k elements are unchanged.
func (h *compH) below(a *actState, o *S, k *T) bool {
	s := o.Clone()
	i := ai.NewSym("i", ai.TInt)
	if !s.Assume(ai.GE0(ai.LinOf(i)), true) || !s.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(k, i), -1))), true) {
		return true // there are none
	}
	return s.Same(h.at(s, h.stackOf(s), i), h.orig(a, i))
}

// shape: the stack lost k elements and then got top pushed.
func (h *compH) shape(a *actState, o *S, k *T) (top *T, ok bool) {
	s := h.stackOf(o)
	rest := ai.Sub(a.n, k)
	_, _, n, _ := o.SliceParts(s)
	if !o.EQ(n, ai.AddK(rest, 1)) || !h.below(a, o, rest) {
		return nil, false
	}
	return h.at(o, s, rest), true
}

func (h *compH) calls(a *actState, act *T) []ai.Outcome {
	return h.m.CallValue(act, []*T{a.tokens, a.g}, a.st.Clone())
}

// spec of an action: a name and a predicate over its behaviour.
type spec struct {
	name string
	ok   func(h *compH, act *T) string // "" or what differs
}

func (h *compH) every(act *T, min int64, prep func(a *actState) bool, f func(a *actState, o ai.Outcome) string) string {
	a := h.actState(func(a *actState) bool {
		if !a.st.Assume(ai.GE0(ai.LinOf(ai.AddK(a.n, -min))), true) {
			return false
		}
		return prep == nil || prep(a)
	})
	if a == nil {
		return "cannot be prepared"
	}
	n := 0
	und := len(h.m.Undecided)
	for _, o := range h.calls(a, act) {
		n++
		if s := f(a, o); s != "" {
			return s
		}
	}
	if len(h.m.Undecided) > und {
		s := h.m.Undecided[und]
		h.m.Undecided = h.m.Undecided[:und]
		return "cannot be decided: " + s
	}
	if n == 0 {
		return "it never returns"
	}
	return ""
}

func noPanic(o ai.Outcome) bool { return o.Panic == nil }

func (h *compH) specs() []spec {
	illegal := constVal(h.c, "tpl", "ILLEGAL")
	gT := h.b.gT
	sameG := func(st *S, x, y *T) bool {
		return st.Same(x, y) || st.Eval(st.IsNil(x)) > 0 && st.Eval(st.IsNil(y)) > 0
	}
	unary := func(op string) spec {
		return spec{op, func(h *compH, act *T) string {
			return h.every(act, 1, nil, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(1))
				if !ok {
					return "it does not replace the top of the stack"
				}
				n := h.b.node(top)
				if n == nil || n.op != op || len(n.args) != 1 || !sameG(o.St, n.args[0], h.orig(a, ai.AddK(a.n, -1))) {
					return "the top of the stack is not " + op + " of the operand"
				}
				return ""
			})
		}}
	}
	binary := func(op string) spec {
		return spec{op, func(h *compH, act *T) string {
			return h.every(act, 2, nil, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(2))
				if !ok {
					return "it does not replace the two operands on the stack"
				}
				n := h.b.node(top)
				if n == nil || n.op != op || len(n.args) != 2 || !sameG(o.St, n.args[0], h.orig(a, ai.AddK(a.n, -2))) || !sameG(o.St, n.args[1], h.orig(a, ai.AddK(a.n, -1))) {
					return "the top of the stack is not " + op + " of the two operands in order"
				}
				return ""
			})
		}}
	}
	nary := func(op string) spec {
		return spec{op, func(h *compH, act *T) string {
			made := 0
			r := h.every(act, 1, nil, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, a.m)
				if !ok {
					return "it does not replace the operands on the stack"
				}
				n := h.b.node(top)
				if n == nil {
					if o.St.EQ(a.m, ai.Int(1)) && sameG(o.St, top, h.orig(a, ai.AddK(a.n, -1))) {
						return ""
					}
					return "the top of the stack is not " + op + " of the operands"
				}
				made++
				if n.op != op || n.n == nil || !o.St.EQ(n.n, a.m) {
					return "the top of the stack is not " + op + " of as many operands as were matched"
				}
				s := o.St.Clone()
				i := ai.NewSym("i", ai.TInt)
				if s.Assume(ai.GE0(ai.LinOf(i)), true) && s.Assume(ai.GE0(ai.LinOf(ai.AddK(ai.Sub(a.m, i), -1))), true) {
					want := h.orig(a, ai.Add(ai.Sub(a.n, a.m), i))
					if n.list == nil { // a fixed number of operands
						for k, x := range n.args {
							if !sameG(o.St, x, h.orig(a, ai.AddK(ai.Sub(a.n, a.m), int64(k)))) {
								return "the operands are not those matched, in source order"
							}
						}
					} else {
						arr, lo, _, _ := o.St.SliceParts(n.list)
						if ai.Root(arr).K != ai.KObj || ai.Root(arr) == a.arr {
							return "the operands share their memory with the operand stack, which is overwritten later"
						}
						got := s.Load(ai.IndexAddr(arr, ai.Add(lo, i), types.NewPointer(gT)), gT)
						if !sameG(s, got, want) {
							return "the operands are not those matched, in source order"
						}
					}
				}
				return ""
			})
			if r == "" && made == 0 {
				return "it never makes " + op
			}
			return r
		}}
	}
	token1 := func(a *actState, o ai.Outcome, tok *T) string {
		if o.Panic != nil {
			if !o.St.EQ(tok, ai.Int(illegal)) {
				return "it rejects a known token"
			}
			return ""
		}
		if !o.St.Lin.EntailsNE0(ai.LinOf(ai.AddK(tok, -illegal))) {
			return "it accepts an unknown token"
		}
		top, ok := h.shape(a, o.St, ai.Int(0))
		if !ok {
			return "it does not push one grammar"
		}
		n := h.b.node(top)
		if n == nil || n.op != "Gr" || !o.St.EQ(n.args[0], tok) {
			return "it does not push the grammar of the token"
		}
		return ""
	}
	ltot := func(a *actState) *T {
		t := ai.App("ltot", types.Typ[types.Uint], a.lit)
		return t
	}
	isTrue := func(o ai.Outcome, a *actState) string {
		if !noPanic(o) {
			return "it may panic"
		}
		top, ok := h.shape(a, o.St, ai.Int(0))
		if !ok || !o.St.Same(top, globalVal(h.c, o.St, "tpl", "GrTrue")) {
			return "it does not push the empty grammar"
		}
		return ""
	}
	upper := func(a *actState, yes bool) bool {
		st := a.st
		n := st.Len(a.lit)
		if !st.Assume(ai.GE0(ai.LinOf(ai.AddK(n, -1))), true) {
			return false
		}
		ch := st.StrAt(a.lit, ai.Int(0), types.Typ[types.Uint8])
		lo, hi := ai.GE0(ai.LinOf(ai.AddK(ch, -'A'))), ai.GE0(ai.LinOf(ai.AddK(ai.Sub(ai.Int('Z'), ch), 0)))
		if yes {
			return st.Assume(lo, true) && st.Assume(hi, true)
		}
		return st.Assume(ai.GE0(ai.LinOf(ai.AddK(ch, -'a'))), true) // identifiers start with a letter or '_' (see below)
	}
	ident := func(h *compH, act *T) string {
		if s := h.every(act, 0, func(a *actState) bool { return upper(a, true) }, func(a *actState, o ai.Outcome) string { return token1(a, o, ltot(a)) }); s != "" {
			return "a token name: " + s
		}
		for _, low := range []bool{true, false} {
			first := func(a *actState) bool {
				if low {
					return upper(a, false)
				}
				st := a.st // '_'
				if !st.Assume(ai.GE0(ai.LinOf(ai.AddK(st.Len(a.lit), -1))), true) {
					return false
				}
				return st.Assume(st.Eq(st.StrAt(a.lit, ai.Int(0), types.Typ[types.Uint8]), ai.Int('_')), true)
			}
			g2 := ai.NewSym("defined", gT)
			v2 := ai.NewSym("variable", types.NewPointer(h.c.Type("tpl", "GrVar")))
			absent := func(a *actState, m *T, t types.Type) bool { a.st.SetAbsent(m, a.lit, t); return true }
			if s := h.every(act, 0, func(a *actState) bool {
				a.st.Assume(ai.App("isnil", ai.TBool, g2), false)
				a.st.MapStore(h.grams, a.lit, g2, h.grT)
				return first(a) && absent(a, h.vars, h.vrT)
			}, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(0))
				n := h.b.node(top)
				if !ok {
					return "it does not push one grammar"
				}
				if o.St.Same(top, g2) {
					return ""
				}
				if n == nil || n.op != "Named" || !o.St.Same(n.args[1], g2) || !o.St.Same(n.args[0], a.lit) {
					return "it does not push the rule of that name"
				}
				return ""
			}); s != "" {
				return "a defined rule: " + s
			}
			if s := h.every(act, 0, func(a *actState) bool {
				a.st.Assume(ai.App("isnil", ai.TBool, v2), false)
				a.st.MapStore(h.vars, a.lit, v2, h.vrT)
				return first(a) && absent(a, h.grams, h.grT)
			}, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(0))
				if !ok || top.K != ai.KIface || !o.St.Same(top.Args[0], v2) {
					return "it does not push the variable of that rule"
				}
				return ""
			}); s != "" {
				return "a rule that is already referenced: " + s
			}
			if s := h.every(act, 0, func(a *actState) bool {
				return first(a) && absent(a, h.grams, h.grT) && absent(a, h.vars, h.vrT) && a.st.Assume(a.st.Eq(a.lit, ai.Str("true")), true)
			}, func(a *actState, o ai.Outcome) string { return isTrue(o, a) }); s != "" && low {
				return "true: " + s
			}
			if s := h.every(act, 0, func(a *actState) bool {
				return first(a) && absent(a, h.grams, h.grT) && absent(a, h.vars, h.vrT) && a.st.Assume(a.st.Eq(a.lit, ai.Str("true")), false)
			}, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(0))
				if !ok || top.K != ai.KIface || top.Args[0].K != ai.KObj {
					return "it does not push a new variable"
				}
				v := top.Args[0]
				vT := h.c.Type("tpl", "GrVar")
				if !o.St.Same(getField(o.St, v, vT, "Name"), a.lit) || o.St.Eval(o.St.IsNil(getField(o.St, v, vT, "Elem"))) <= 0 {
					return "the new variable does not have the name of the rule or is already assigned"
				}
				if has, w := o.St.MapHas(h.vars, a.lit, h.vrT); has <= 0 || w != v {
					return "the new variable is not remembered"
				}
				return ""
			}); s != "" {
				return "a rule that is not known yet: " + s
			}
		}
		return ""
	}
	assign := func(h *compH, act *T) string {
		vT := h.c.Type("tpl", "GrVar")
		g2 := ai.NewSym("defined", gT)
		mkVar := func(a *actState, elem *T) *T {
			v := ai.NewObj("variable", vT)
			a.st.Store(v, ai.Zero(vT), vT)
			setField(a.st, v, vT, "Elem", elem)
			setField(a.st, v, vT, "Name", a.lit)
			a.st.MapStore(h.vars, a.lit, v, h.vrT)
			return v
		}
		var v *T
		top := func(a *actState) *T { return h.orig(a, ai.AddK(a.n, -1)) }
		nonNilTop := func(a *actState) { a.st.Assume(a.st.IsNil(top(a)), false) }
		popped := func(a *actState, o ai.Outcome) bool {
			s := h.stackOf(o.St)
			_, _, n, _ := o.St.SliceParts(s)
			return o.St.EQ(n, ai.AddK(a.n, -1)) && h.below(a, o.St, ai.AddK(a.n, -1))
		}
		if s := h.every(act, 1, func(a *actState) bool {
			nonNilTop(a)
			v = mkVar(a, ai.Nil(gT))
			a.st.SetAbsent(h.grams, a.lit, h.grT)
			return true
		}, func(a *actState, o ai.Outcome) string {
			if !noPanic(o) {
				return "it may panic"
			}
			if !popped(a, o) {
				return "it does not pop the rule"
			}
			if !o.St.Same(getField(o.St, v, vT, "Elem"), top(a)) {
				return "the variable of the rule is not assigned"
			}
			return ""
		}); s != "" {
			return "a rule that was referenced before: " + s
		}
		if s := h.every(act, 1, func(a *actState) bool {
			nonNilTop(a)
			a.st.Assume(ai.App("isnil", ai.TBool, g2), false)
			mkVar(a, g2)
			a.st.SetAbsent(h.grams, a.lit, h.grT)
			return true
		}, func(a *actState, o ai.Outcome) string {
			if noPanic(o) {
				return "a second definition is accepted"
			}
			return ""
		}); s != "" {
			return "a rule that was referenced before its definition: " + s
		}
		if s := h.every(act, 1, func(a *actState) bool {
			nonNilTop(a)
			a.st.Assume(ai.App("isnil", ai.TBool, g2), false)
			a.st.SetAbsent(h.vars, a.lit, h.vrT)
			a.st.MapStore(h.grams, a.lit, g2, h.grT)
			return true
		}, func(a *actState, o ai.Outcome) string {
			if noPanic(o) {
				return "a second definition is accepted"
			}
			return ""
		}); s != "" {
			return "a defined rule: " + s
		}
		if s := h.every(act, 1, func(a *actState) bool {
			nonNilTop(a)
			a.st.SetAbsent(h.vars, a.lit, h.vrT)
			a.st.SetAbsent(h.grams, a.lit, h.grT)
			return true
		}, func(a *actState, o ai.Outcome) string {
			if !noPanic(o) {
				return "it may panic"
			}
			if !popped(a, o) {
				return "it does not pop the rule"
			}
			if has, x := o.St.MapHas(h.grams, a.lit, h.grT); has <= 0 || !o.St.Same(x, top(a)) {
				return "the rule is not remembered"
			}
			return ""
		}); s != "" {
			return "a new rule: " + s
		}
		return ""
	}
	mark := func(h *compH, act *T) string {
		return h.every(act, 1, nil, func(a *actState, o ai.Outcome) string {
			if !noPanic(o) {
				return "it may panic"
			}
			top, ok := h.shape(a, o.St, ai.Int(1))
			if !ok {
				return "it does not replace the top of the stack"
			}
			if h.marker.K == ai.KNil {
				if !sameG(o.St, top, h.orig(a, ai.AddK(a.n, -1))) {
					return "without a marker the grammar changes"
				}
				return ""
			}
			if !o.St.EQ(o.St.Ghost["markCalls"], ai.Int(1)) || top.K != ai.KApp || top.Name != "marked" || !sameG(o.St, top.Args[0], h.orig(a, ai.AddK(a.n, -1))) || !o.St.Same(top.Args[1], a.lit) {
				return "the grammar is not replaced by what the marker makes of it and the mark"
			}
			return ""
		})
	}
	return []spec{
		binary("List"), binary("List0"), nary("And"), nary("Or"),
		unary("Repeat0"), unary("Repeat1"), unary("Repeat01"), unary("Not"), unary("Peek"),
		{"nil", func(h *compH, act *T) string {
			return h.every(act, 0, nil, func(a *actState, o ai.Outcome) string {
				if !noPanic(o) {
					return "it may panic"
				}
				top, ok := h.shape(a, o.St, ai.Int(0))
				if !ok || o.St.Eval(o.St.IsNil(top)) <= 0 {
					return "it does not push a fail-fast mark"
				}
				return ""
			})
		}},
		{"token", func(h *compH, act *T) string {
			return h.every(act, 0, nil, func(a *actState, o ai.Outcome) string { return token1(a, o, ltot(a)) })
		}},
		{"true", func(h *compH, act *T) string {
			if s := h.every(act, 0, func(a *actState) bool { return a.st.Assume(a.st.Eq(a.lit, ai.Str("1")), true) },
				func(a *actState, o ai.Outcome) string { return isTrue(o, a) }); s != "" {
				return "1: " + s
			}
			return h.every(act, 0, func(a *actState) bool { return a.st.Assume(a.st.Eq(a.lit, ai.Str("1")), false) },
				func(a *actState, o ai.Outcome) string {
					if noPanic(o) {
						return "another number is accepted"
					}
					return ""
				})
		}},
		{"assign", assign}, {"mark", mark}, {"ident", ident},
	}
}

// label finds what an action does.
func (h *compH) label(act *T, specs []spec, why map[string]string) string {
	var hits []string
	for _, s := range specs {
		r := s.ok(h, act)
		if r == "" {
			hits = append(hits, s.name)
		} else {
			why[s.name] = r
		}
	}
	if len(hits) == 1 {
		return hits[0]
	}
	if len(hits) == 0 {
		return "unknown"
	}
	return strings.Join(hits, "&")
}

// ruleLanguage is the reference of the rule language: operators, precedence
// and what each construct compiles to.
func ruleLanguage(c *Ctx, acts map[string]string) *gtree {
	gr := func(name string) *gtree {
		if len(name) == 1 {
			return &gtree{op: "Gr", tok: int64(name[0])}
		}
		return &gtree{op: "Gr", tok: constVal(c, "tpl", name)}
	}
	op := func(o string, k ...*gtree) *gtree { return &gtree{op: o, kids: k} }
	act := func(k *gtree, a string) *gtree {
		return &gtree{op: "Action", kids: []*gtree{k}, act: a}
	}
	body := &gtree{op: "body"}
	factor := func() *gtree { return &gtree{op: "var", v: body} }
	term := op("And", factor(), op("Repeat0", op("Or",
		op("And", gr("%"), act(factor(), "List")),
		op("And", gr("REM_ASSIGN"), act(factor(), "List0")),
		op("And", gr("/"), act(gr("IDENT"), "mark")))))
	expr := act(op("Repeat1", op("Or", term, act(gr("!"), "nil"))), "And")
	grammar := func() *gtree { return act(op("List", expr, gr("|")), "Or") }
	pre := func(t, a string) *gtree { return op("And", gr(t), act(factor(), a)) }
	body.kids = []*gtree{op("Or",
		act(gr("IDENT"), "ident"), act(gr("CHAR"), "token"), act(gr("STRING"), "token"), act(gr("INT"), "true"),
		pre("*", "Repeat0"), pre("+", "Repeat1"), pre("?", "Repeat01"), pre("~", "Not"), pre("@", "Peek"),
		op("And", gr("("), grammar(), gr(")")))}
	return op("Repeat1", act(op("And", gr("IDENT"), gr("="), grammar(), gr(";")), "assign"))
}

func checkCompiler(c *Ctx, part string) {
	for _, marker := range []bool{true, false} {
		h := newCompH(c, part, marker)
		outs := h.run()
		if h.captured == nil {
			h.m.Undecide("the rule text is never matched")
			c.Absorb("Cl", h.m)
			return
		}
		_ = outs
		h.m.Undecided = nil
		if part == "C14" && !marker {
			continue
		}
		// actions
		if err := h.locate(h.captured); err != nil {
			h.m.Undecide("%v", err)
			c.Absorb("Cl", h.m)
			return
		}
		specs := h.specs()
		if part == "C14" {
			var keep []spec
			for _, s := range specs {
				switch s.name {
				case "assign", "ident", "token", "true":
					keep = append(keep, s)
				}
			}
			specs = keep
		}
		memo := map[*T]string{}
		whys := map[string]map[string]string{}
		label := func(n *gnode) string {
			if n.op != "Action" {
				return n.op
			}
			act := n.args[1]
			if l, ok := memo[act]; ok {
				return l
			}
			why := map[string]string{}
			l := h.label(act, specs, why)
			if l == "unknown" && part == "C13" {
				l = fmt.Sprintf("unknown action of line %s", c.Loc(n.pos))
			}
			whys[l] = why
			memo[act] = l
			return l
		}
		tree, err := h.b.decode(h.captured, h.dsl, map[*T]*gtree{}, label)
		if err != nil {
			h.m.Undecide("the structure of the rule language: %v", err)
			c.Absorb("Cl", h.m)
			return
		}
		want := ruleLanguage(c, nil)
		names := map[int64]string{}
		for _, k := range []string{"IDENT", "CHAR", "STRING", "INT", "REM_ASSIGN"} {
			names[constVal(c, "tpl", k)] = k
		}
		tokName := func(k int64) string {
			if n, ok := names[k]; ok {
				return n
			}
			if k > 32 && k < 127 {
				return "'" + string(rune(k)) + "'"
			}
			return fmt.Sprintf("token %d", k)
		}
		if part == "C14" {
			// only what defines and rejects
			strip := map[string]bool{"assign": true, "ident": true, "token": true, "true": true}
			relabel(want, strip, map[*gtree]bool{})
			relabel(tree, strip, map[*gtree]bool{})
		}
		ga, gw := analyse(tree), analyse(want)
		got, exp := canon(tree, ga, tokName), canon(want, gw, tokName)
		// the operators that differ, with the reason
		if got != exp {
			i := 0
			for i < len(got) && i < len(exp) && got[i] == exp[i] {
				i++
			}
			cut := func(s string) string {
				a, b := i-40, i+60
				if a < 0 {
					a = 0
				}
				if b > len(s) {
					b = len(s)
				}
				if a > len(s) {
					a = len(s)
				}
				return s[a:b]
			}
			var notes []string
			for l, w := range whys {
				if strings.HasPrefix(l, "unknown") {
					for k, v := range w {
						notes = append(notes, l+": not "+k+": "+v)
					}
				}
			}
			sort.Strings(notes)
			c.Violate(c.Method("tpl", "Compiler", "Cl").Pos(), "Compiler.Cl", fmt.Sprintf("the rule language differs: found `..%s..`, expected `..%s..`", cut(got), cut(exp)), notes)
		}
		c.Oblig += len(memo) + 1
		bad := ga.ll1(tree)
		c.Must(len(bad) == 0, c.Method("tpl", "Compiler", "Cl").Pos(), "Compiler.Cl", "one token does not decide the rule language: %s (an abandoned alternative leaves its operands on the stack)", strings.Join(bad, "; "))
		c.Must(h.captured.EQ(h.dslMode, ai.Int(constVal(c, "tpl", "InsertSemis"))), token.NoPos, "Compiler.Cl", "the rule text is scanned without semicolon insertion")
		c.Case("rule language (marker given: %v): %s", marker, got)
		c.Absorb("Cl", h.m)
	}
}

func relabel(t *gtree, keep map[string]bool, seen map[*gtree]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "Action" && !keep[t.act] {
		t.act = "other"
	}
	for _, k := range t.kids {
		relabel(k, keep, seen)
	}
	if t.v != nil {
		relabel(t.v, keep, seen)
	}
}

// checkCompileResult judges how compilation ends.
func checkCompileResult(c *Ctx, part string) {
	cl := c.Method("tpl", "Compiler", "Cl")
	if cl == nil {
		return
	}
	chk := func(h *compH, p string, st *S, ok bool, f string, a ...interface{}) {
		if p == part {
			h.m.Check(st, ok, cl.Pos(), f, a...)
		}
	}
	crT := c.Type("tpl", "CompileRet")
	mT := c.Type("tpl", "Matcher")
	// ends
	h := newCompH(c, part, true)
	okN, errN := 0, 0
	for _, o := range h.run() {
		st := o.St
		if !st.EQ(st.Ghost["matched"], ai.Int(1)) {
			chk(h, "C14", st, o.Panic != nil || errNotNil(st, o.Ret.Args[1]), "compilation succeeds without matching the rule text")
			continue
		}
		if o.Panic != nil {
			errN++
			continue
		}
		ret, err := o.Ret.Args[0], o.Ret.Args[1]
		if st.Ghost["ruleFailed"] != nil {
			chk(h, "C14", st, errNotNil(st, err), "a rule text that does not parse is compiled")
			errN++
			continue
		}
		if errNotNil(st, err) {
			errN++
			continue
		}
		chk(h, "C14", st, errNil(st, err), "it is not decided whether compilation succeeds")
		if left := st.Ghost["left"]; left != nil {
			chk(h, "C14", st, st.EQ(st.Len(left), ai.Int(0)), "a rule text that is not parsed completely is compiled")
		}
		has, doc := st.MapHas(h.grams, ai.Str("doc"), h.grT)
		chk(h, "C14", st, has > 0, "a rule text without a rule doc is compiled")
		okN++
		fi, _ := fieldIdx(crT, "Matcher")
		m := st.Field(ret, fi, crT.Underlying().(*types.Struct).Field(fi).Type())
		gi, gft := fieldIdx(crT, "Grammars")
		vi, vft := fieldIdx(crT, "Vars")
		if has > 0 {
			chk(h, "C13", st, st.Same(getField(st, m, mT, "Grammar"), doc), "the compiled grammar is not that of the rule doc")
		}
		chk(h, "C13", st, st.Same(getField(st, m, mT, "Scanner"), h.scanner) && st.Same(getField(st, m, mT, "ScanMode"), h.mode) && st.Same(getField(st, m, mT, "Init"), h.init),
			"the compiled grammar does not have the scanner, scan mode or init hook of the compiler")
		chk(h, "C13", st, st.Field(ret, gi, gft) == h.grams && st.Field(ret, vi, vft) == h.vars, "the tables of rules and variables are not those of the compilation")
	}
	c.Must(okN > 0 && errN > 0, cl.Pos(), "Compiler.Cl", "compilation never succeeds or never fails")
	c.Case("Compiler.Cl: %d successful and %d failing ends", okN, errN)
	c.Absorb("Cl", h.m)
	if part != "C14" {
		return
	}
	// an unassigned variable is found wherever it is in the table
	h = newCompH(c, part, true)
	vT := c.Type("tpl", "GrVar")
	h.after = func(st *S) {
		v := ai.NewObj("unassigned", vT)
		st.Store(v, ai.Zero(vT), vT)
		st.SetWitness(h.vars, ai.NewSym("anyName", ai.TString), v, h.vrT)
	}
	n := 0
	for _, o := range h.run() {
		if o.Panic != nil {
			continue
		}
		n++
		h.m.Check(o.St, errNotNil(o.St, o.Ret.Args[1]), cl.Pos(), "a rule text that leaves a referenced rule undefined is compiled")
	}
	c.Must(n > 0, cl.Pos(), "Compiler.Cl", "compilation never returns")
	c.Case("Compiler.Cl with an unassigned variable anywhere in the table: %d ends, all errors", n)
	c.Absorb("Cl", h.m)
}

var _ = ssa.Function{}

func init() {
	register("C13", "Abstract interpretation of the compiler: the grammar of the rule language it builds is reconstructed from the constructor calls and compared, in a normal form, with the reference rule language; the effect of every compile action is computed over an arbitrary operand stack (any depth and contents, any number of operands) and classified; the rule language is checked to be decided by one token, so an abandoned alternative cannot leave operands behind.", func(c *Ctx) {
		checkCompiler(c, "C13")
		checkCompileResult(c, "C13")
	})
	register("C14", "Abstract interpretation of the compiler: effect of the actions that define and resolve rules and tokens over arbitrary rule tables and names, and every way compilation can end, with arbitrary tables and an unassigned variable at an arbitrary place of the table.", func(c *Ctx) {
		checkCompiler(c, "C14")
		checkCompileResult(c, "C14")
	})
}
