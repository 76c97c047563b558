package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Property G01: the code generated for a rule text builds the grammar of the
// text. GenStaticCode is interpreted on rule texts: the grammar it builds for
// the rule language is matched against the tokens of the text (by the
// reference matcher below), its actions are interpreted, and the text it
// returns is parsed, type-checked against the tpl package and interpreted
// itself, with the grammar constructors as events.

const relGen = "tpl/generator"

// gg is a grammar as an object graph.
type gg struct {
	op   string
	x    *T // the token of Gr, the action of Action
	name *T // of a mark or a named grammar
	kids []*gg
	n    int // Len after a match (-1: none)
}

type genH struct {
	c     *Ctx
	b     *builder
	m     *ai.Machine
	tokT  types.Type
	src   string
	stamp string // what the match decided: ok, syntax
	seen  map[*T]*gg
	gobj  map[*T]*gg // symbols standing for the grammar given to an action
}

// graph reads a constructed grammar.
func (h *genH) graph(st *S, x *T) (*gg, error) {
	if x == nil || st.Eval(st.IsNil(x)) > 0 {
		return &gg{op: "nil", n: -1}, nil
	}
	u := x
	if u.K == ai.KIface {
		u = u.Args[0]
	}
	if g := h.seen[u]; g != nil {
		return g, nil
	}
	g := &gg{n: -1}
	h.seen[u] = g
	kids := func(args ...*T) (*gg, error) {
		for _, a := range args {
			k, err := h.graph(st, a)
			if err != nil {
				return nil, err
			}
			g.kids = append(g.kids, k)
		}
		return g, nil
	}
	if n := h.b.nodes[u]; n != nil {
		g.op = n.op
		switch n.op {
		case "Gr":
			g.x = n.args[0]
			return g, nil
		case "Action", "Transaction":
			g.op, g.x = "Action", n.args[1]
			return kids(n.args[0])
		case "Named":
			g.op, g.name = "ref", n.args[0]
			return kids(n.args[1])
		}
		if n.list != nil {
			return nil, fmt.Errorf("the number of operands of %s is not known", n.op)
		}
		return kids(n.args...)
	}
	if u.K == ai.KObj && u.Typ != nil {
		if p, ok := u.Typ.(*types.Pointer); ok {
			vT, nT := h.c.Type("tpl", "GrVar"), h.c.Type("tpl", "GrNamed")
			if types.Identical(p.Elem(), vT) {
				g.op = "ref"
				return kids(getField(st, u, vT, "Elem"))
			}
			if types.Identical(p.Elem(), nT) {
				g.op, g.name = "ref", getField(st, u, nT, "name")
				return kids(getField(st, u, nT, "g"))
			}
		}
	}
	if u.K == ai.KApp && u.Name == "marked" {
		g.op, g.name = "mark", u.Args[1]
		return kids(u.Args[0])
	}
	for _, nm := range []string{"GrTrue", "GrEOF"} {
		if st.Same(x, globalVal(h.c, st, "tpl", nm)) {
			g.op = nm
			return g, nil
		}
	}
	return nil, fmt.Errorf("a grammar of unknown structure: %s", x)
}

type gtok struct {
	kind int64
	lit  string
}

// genTokens splits a rule text as the scanner does.
func (h *genH) genTokens(src string) ([]gtok, error) {
	lx, err := lexGrammar(src)
	if err != nil {
		return nil, err
	}
	cv := func(n string) int64 { return constVal(h.c, "tpl", n) }
	var out []gtok
	for i, t := range lx.toks {
		switch lx.kind[i] {
		case 'i':
			out = append(out, gtok{cv("IDENT"), t})
		case 'n':
			out = append(out, gtok{cv("INT"), t})
		case 'l':
			if t[0] == '\'' {
				out = append(out, gtok{cv("CHAR"), t})
			} else {
				out = append(out, gtok{cv("STRING"), t})
			}
		case ';':
			out = append(out, gtok{';', ""})
		case 'o':
			if multiOp[t] != "" {
				out = append(out, gtok{cv(multiOp[t]), ""})
			} else {
				out = append(out, gtok{int64(t[0]), ""})
			}
		}
	}
	return out, nil
}

type genAbort struct {
	panics bool // an action panics
	why    string
}

// match matches toks[i:] and runs actions; st is replaced as they run.
func (h *genH) match(g *gg, toks []gtok, i int, st **S) (int, bool) {
	switch g.op {
	case "Gr":
		k, ok := ai.IntVal(g.x)
		if !ok {
			panic(genAbort{why: "a token of the rule language is not known"})
		}
		if i < len(toks) && toks[i].kind == k {
			return 1, true
		}
		return 0, false
	case "GrTrue":
		return 0, true
	case "GrEOF":
		return 0, i == len(toks)
	case "And":
		n := 0
		for _, k := range g.kids {
			if k.op == "nil" {
				continue
			}
			m, ok := h.match(k, toks, i+n, st)
			if !ok {
				return 0, false
			}
			n += m
		}
		g.n = len(g.kids)
		return n, true
	case "Or":
		g.n = len(g.kids)
		for _, k := range g.kids {
			if m, ok := h.match(k, toks, i, st); ok {
				return m, true
			}
		}
		return 0, false
	case "Repeat0", "Repeat1", "Repeat01":
		n, cnt := 0, 0
		for g.op != "Repeat01" || cnt == 0 {
			m, ok := h.match(g.kids[0], toks, i+n, st)
			if !ok || m == 0 {
				break
			}
			n += m
			cnt++
		}
		g.n = cnt
		return n, cnt > 0 || g.op != "Repeat1"
	case "List", "List0":
		n, ok := h.match(g.kids[0], toks, i, st)
		cnt := 1
		if !ok {
			g.n = 0
			return 0, g.op == "List0"
		}
		for {
			a, ok1 := h.match(g.kids[1], toks, i+n, st)
			if !ok1 {
				break
			}
			b, ok2 := h.match(g.kids[0], toks, i+n+a, st)
			if !ok2 {
				break
			}
			n += a + b
			cnt++
		}
		g.n = cnt
		return n, true
	case "Not":
		_, ok := h.match(g.kids[0], toks, i, st)
		return 0, !ok
	case "Peek":
		_, ok := h.match(g.kids[0], toks, i, st)
		return 0, ok
	case "ref":
		return h.match(g.kids[0], toks, i, st)
	case "Action":
		n, ok := h.match(g.kids[0], toks, i, st)
		if !ok {
			return 0, false
		}
		arr := ai.NewObj("tokens", types.NewArray(h.tokT, int64(n)))
		(*st).Store(arr, ai.Zero(types.NewArray(h.tokT, int64(n))), types.NewArray(h.tokT, int64(n)))
		for k, t := range toks[i : i+n] {
			a := ai.IndexAddr(arr, ai.Int(int64(k)), types.NewPointer(h.tokT))
			setField(*st, a, h.tokT, "Kind", ai.Int(t.kind))
			setField(*st, a, h.tokT, "Literal", ai.Str(t.lit))
		}
		gs := ai.NewSym("g", h.b.gT)
		(*st).Assume(ai.App("isnil", ai.TBool, gs), false)
		h.gobj[gs] = g.kids[0]
		ln := ai.Int(int64(n))
		outs := h.m.CallValue(g.x, []*T{ai.SliceT(types.NewSlice(h.tokT), arr, ai.Int(0), ln, ln), gs}, *st)
		if len(outs) != 1 {
			panic(genAbort{why: fmt.Sprintf("an action has %d outcomes", len(outs))})
		}
		if outs[0].Panic != nil {
			*st = outs[0].St
			panic(genAbort{panics: true})
		}
		*st = outs[0].St
		return n, true
	}
	panic(genAbort{why: "an operator of the rule language is not known: " + g.op})
}

// fmtConst computes Sprintf and the like on known operands.
func fmtConst(st *S, fn *ssa.Function, args []*T) (string, bool) {
	var ops []interface{}
	for i, a := range args {
		if i < len(args)-1 {
			s, ok := ai.StrVal(a)
			if !ok {
				return "", false
			}
			ops = append(ops, s)
			continue
		}
		n, ok := ai.IntVal(st.Len(a))
		if !ok {
			return "", false
		}
		arr, lo, _, _ := st.SliceParts(a)
		for k := int64(0); k < n; k++ {
			x := st.Load(ai.IndexAddr(arr, ai.AddK(lo, k), types.NewPointer(ai.TAny)), ai.TAny)
			if x.K == ai.KIface {
				x = x.Args[0]
			}
			if s, ok := ai.StrVal(x); ok {
				ops = append(ops, s)
			} else if v, ok := ai.IntVal(x); ok {
				ops = append(ops, v)
			} else {
				return "", false
			}
		}
	}
	switch fn.Name() {
	case "Sprintf", "Fprintf":
		return fmt.Sprintf(ops[0].(string), ops[1:]...), true
	case "Sprint", "Fprint":
		return fmt.Sprint(ops...), true
	}
	return fmt.Sprintln(ops...), true
}

func (h *genH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if outs, ok := h.b.hook(m, st, ci); ok {
		return outs, true
	}
	if ci.Method != nil && ci.Method.Name() == "Len" && h.gobj[ci.Recv] != nil {
		return []ai.Outcome{{St: st, Ret: ai.Int(int64(h.gobj[ci.Recv].n))}}, true
	}
	fn := ci.Fn
	if fn == nil || fn.Pkg == nil {
		return nil, false
	}
	if outs, ok := textHook(st, ci); ok {
		return outs, true
	}
	if rv := fn.Signature.Recv(); rv != nil {
		n := namedOf(rv.Type())
		if n != nil && n.Obj().Name() == "Matcher" && n.Obj().Pkg().Path() == ai.RepoPrefix+"/tpl" {
			switch fn.Name() {
			case "MatchExactly", "Eval", "Match":
				return h.matchEvent(st, ci, n), true
			}
		}
		return nil, false
	}
	return nil, false
}

// textHook computes functions that build texts when what they are given is
// known.
func textHook(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	fn := ci.Fn
	one := func(r *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: r}}, true }
	if rv := fn.Signature.Recv(); rv != nil {
		n := namedOf(rv.Type())
		if n == nil || n.Obj().Pkg() == nil || len(ci.Args) == 0 {
			return nil, false
		}
		if full := n.Obj().Pkg().Path() + "." + n.Obj().Name(); full != "strings.Builder" && full != "bytes.Buffer" {
			return nil, false
		}
		key := fmt.Sprintf("text:%p", ci.Args[0])
		cur := ""
		if t := st.Ghost[key]; t != nil {
			cur, _ = ai.StrVal(t)
		}
		put := func(s string) { st.Ghost[key] = ai.Str(cur + s) }
		switch fn.Name() {
		case "String":
			return one(ai.Str(cur))
		case "Len":
			return one(ai.Int(int64(len(cur))))
		case "Reset":
			st.Ghost[key] = ai.Str("")
			return []ai.Outcome{{St: st}}, true
		case "Grow":
			return []ai.Outcome{{St: st}}, true
		case "WriteString":
			if s, ok := ai.StrVal(ci.Args[1]); ok {
				put(s)
				return one(ai.Tuple(ai.Int(int64(len(s))), ai.Nil(ai.TError)))
			}
		case "WriteByte":
			if b, ok := ai.IntVal(ci.Args[1]); ok {
				put(string([]byte{byte(b)}))
				return one(ai.Nil(ai.TError))
			}
		case "WriteRune":
			if b, ok := ai.IntVal(ci.Args[1]); ok {
				put(string(rune(b)))
				return one(ai.Tuple(ai.Int(int64(len(string(rune(b))))), ai.Nil(ai.TError)))
			}
		}
		return nil, false
	}
	switch fn.Pkg.Pkg.Path() {
	case "fmt":
		switch fn.Name() {
		case "Sprintf", "Sprint", "Sprintln":
			if s, ok := fmtConst(st, fn, ci.Args); ok {
				return one(ai.Str(s))
			}
		case "Fprintf", "Fprint", "Fprintln":
			w := ci.Args[0]
			if w.K == ai.KIface {
				w = w.Args[0]
			}
			if s, ok := fmtConst(st, fn, ci.Args[1:]); ok {
				if p, isP := w.Typ.(*types.Pointer); isP {
					if n := namedOf(p.Elem()); n != nil && n.Obj().Pkg() != nil && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Buffer") {
						key := fmt.Sprintf("text:%p", w)
						cur := ""
						if t := st.Ghost[key]; t != nil {
							cur, _ = ai.StrVal(t)
						}
						st.Ghost[key] = ai.Str(cur + s)
						return one(ai.Tuple(ai.Int(int64(len(s))), ai.Nil(ai.TError)))
					}
				}
			}
		}
	case "strings":
		switch fn.Name() {
		case "Join":
			if l, ok := knownStrings(st, ci.Args[0]); ok {
				if sep, ok := ai.StrVal(ci.Args[1]); ok {
					return one(ai.Str(strings.Join(l, sep)))
				}
			}
		case "Repeat":
			if s, ok := ai.StrVal(ci.Args[0]); ok {
				if n, ok := ai.IntVal(ci.Args[1]); ok && n >= 0 {
					return one(ai.Str(strings.Repeat(s, int(n))))
				}
			}
		default:
			var l []string
			for _, a := range ci.Args {
				if s, ok := ai.StrVal(a); ok {
					l = append(l, s)
				}
			}
			switch {
			case len(l) != len(ci.Args):
				if fn.Name() == "Replace" && len(l) == 3 {
					if n, ok := ai.IntVal(ci.Args[3]); ok {
						return one(ai.Str(strings.Replace(l[0], l[1], l[2], int(n))))
					}
				}
			case fn.Name() == "ReplaceAll":
				return one(ai.Str(strings.ReplaceAll(l[0], l[1], l[2])))
			case fn.Name() == "TrimSpace":
				return one(ai.Str(strings.TrimSpace(l[0])))
			case fn.Name() == "Title":
				return one(ai.Str(strings.Title(l[0])))
			case fn.Name() == "Trim":
				return one(ai.Str(strings.Trim(l[0], l[1])))
			case fn.Name() == "TrimLeft":
				return one(ai.Str(strings.TrimLeft(l[0], l[1])))
			case fn.Name() == "TrimRight":
				return one(ai.Str(strings.TrimRight(l[0], l[1])))
			}
		}
	case "strconv":
		switch fn.Name() {
		case "Quote":
			if s, ok := ai.StrVal(ci.Args[0]); ok {
				return one(ai.Str(strconv.Quote(s)))
			}
		case "Itoa":
			if n, ok := ai.IntVal(ci.Args[0]); ok {
				return one(ai.Str(strconv.Itoa(int(n))))
			}
		}
	}
	return nil, false
}

func knownStrings(st *S, sl *T) ([]string, bool) {
	n, ok := ai.IntVal(st.Len(sl))
	if !ok {
		return nil, false
	}
	arr, lo, _, _ := st.SliceParts(sl)
	var out []string
	for k := int64(0); k < n; k++ {
		s, ok := ai.StrVal(st.Load(ai.IndexAddr(arr, ai.AddK(lo, k), types.NewPointer(ai.TString)), ai.TString))
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func (h *genH) matchEvent(st *S, ci *ai.CallInfo, n *types.Named) []ai.Outcome {
	src := ci.Args[1]
	if ci.Fn.Name() != "Eval" {
		src = st.Convert(src, types.NewSlice(types.Typ[types.Byte]), ai.TString)
	}
	if s, ok := ai.StrVal(src); !ok || s != h.src {
		h.m.Fail(st, ci.Pos(), "code is generated for something other than the rule text (%s)", src)
		return nil
	}
	mode := getField(st, ci.Args[0], n, "ScanMode")
	h.m.Check(st, st.Eval(st.Eq(mode, ai.Int(constVal(h.c, "tpl", "InsertSemis")))) > 0, ci.Pos(), "the rule text is not scanned with line ends as rule ends")
	g, err := h.graph(st, getField(st, ci.Args[0], n, "Grammar"))
	if err != nil {
		h.m.Undecide("%v", err)
		return nil
	}
	toks, err := h.genTokens(h.src)
	if err != nil {
		h.m.Undecide("%v", err)
		return nil
	}
	ok, panicked := false, false
	all := ci.Fn.Name() != "Match"
	func() {
		defer func() {
			if r := recover(); r != nil {
				a, is := r.(genAbort)
				if !is {
					panic(r)
				}
				if !a.panics {
					h.m.Undecide("%s", a.why)
				}
				panicked = true
			}
		}()
		k, good := h.match(g, toks, 0, &st)
		ok = good && (k == len(toks) || !all)
	}()
	if panicked {
		p := ai.NewSym("abort", ai.TAny)
		st.Assume(ai.App("isnil", ai.TBool, p), false)
		return []ai.Outcome{{St: st, Panic: p}}
	}
	if !ok {
		e := ai.NewSym("syntax error", ai.TError)
		st.Assume(ai.App("isnil", ai.TBool, e), false)
		if !all {
			return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.NewSym("next", ci.Fn.Signature.Results().At(0).Type()), e)}}
		}
		return []ai.Outcome{{St: st, Ret: e}}
	}
	if !all {
		return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.NewSym("next", ci.Fn.Signature.Results().At(0).Type()), ai.Nil(ai.TError))}}
	}
	return []ai.Outcome{{St: st, Ret: ai.Nil(ai.TError)}}
}

// brief shortens a rule text for a message.
func brief(s string) string {
	if len(s) > 90 {
		return s[:60] + "..."
	}
	return s
}

// generate interprets GenStaticCode on a rule text. code is empty when it
// fails.
func (h *genH) generate(fn *ssa.Function, src string) (code string, ok bool) {
	h.src, h.seen, h.gobj = src, map[*T]*gg{}, map[*T]*gg{}
	h.b.nodes = map[*T]*gnode{}
	h.m.Steps = 0
	st := h.c.P.Base("tpl", relGen)
	outs := h.m.Run(fn, []*T{ai.Str(src)}, nil, st)
	if len(outs) != 1 {
		if os.Getenv("SA_GEN") != "" {
			for _, o := range outs {
				fmt.Println(o.Ret, o.Panic, o.St.Dump())
			}
		}
		h.m.Undecide("generating code for %q has %d outcomes", brief(src), len(outs))
		return "", false
	}
	o := outs[0]
	if o.Panic != nil {
		return "", true
	}
	if o.Ret == nil || len(o.Ret.Args) != 2 {
		h.m.Undecide("the result of the generator is not understood")
		return "", false
	}
	if e := o.St.Eval(o.St.IsNil(o.Ret.Args[1])); e < 0 {
		return "", true
	} else if e == 0 {
		h.m.Undecide("whether code is generated for %q cannot be decided", brief(src))
		return "", false
	}
	s, isS := ai.StrVal(o.Ret.Args[0])
	if !isS {
		h.m.Undecide("the code generated for %q is not known: %s", brief(src), o.Ret.Args[0])
		return "", false
	}
	if strings.TrimSpace(s) == "" {
		h.m.Fail(o.St, fn.Pos(), "no code is generated for %q, and no error is returned", brief(src))
		return "", false
	}
	return s, true
}

type mapImporter map[string]*types.Package

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("there is no package %s", path)
}

func (c *Ctx) importer() mapImporter {
	imp := mapImporter{}
	packages.Visit(c.P.Pkgs, nil, func(p *packages.Package) {
		if p.Types != nil {
			imp[p.Types.Path()] = p.Types
		}
	})
	return imp
}

// typeCheck checks a generated file.
func typeCheck(c *Ctx, imp mapImporter, name, text string) (*ast.File, *types.Package, *types.Info, error) {
	f, err := parser.ParseFile(c.P.Prog.Fset, name, text, 0)
	if err != nil {
		return nil, nil, nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := &types.Config{Importer: imp}
	pk, err := cfg.Check("generated/"+name, c.P.Prog.Fset, []*ast.File{f}, info)
	return f, pk, info, err
}

// genCompare compares a built grammar with the rule text.
type genCompare struct {
	c    *Ctx
	h    *genH
	st   *S
	g    *gspec
	done map[string]bool
	ltot func(raw string) *T
}

func (k *genCompare) same(a *gg, n *rnode) string {
	if a.op == "ref" {
		if n.k != 'r' {
			return "refers to a rule where the text has " + string(n.k)
		}
		return k.rule(a, n.name)
	}
	if a.op == "And" && n.k != 's' { // a cut beside a single operand
		var only []*gg
		for _, x := range a.kids {
			if x.op != "nil" {
				only = append(only, x)
			}
		}
		if len(only) == 1 && len(a.kids) > 1 {
			return k.same(only[0], n)
		}
	}
	if n.k == 'r' {
		return a.op + " where the text refers to " + n.name
	}
	want := map[byte]string{'s': "And", '|': "Or", '*': "Repeat0", '+': "Repeat1", '?': "Repeat01", '~': "Not", '@': "Peek", '%': "List", '=': "List0", 'm': "mark", 't': "Gr", '1': "GrTrue"}[n.k]
	if a.op != want {
		return fmt.Sprintf("%s where the text has %s", a.op, want)
	}
	switch n.k {
	case 't':
		if n.raw[0] >= 'A' && n.raw[0] <= 'Z' {
			if v, ok := ai.IntVal(a.x); ok {
				w := k.kind(n.raw)
				if w != v {
					return fmt.Sprintf("the token %d where the text has %s (%d)", v, n.raw, w)
				}
				return ""
			}
		}
		if n.raw[0] == '\'' {
			if v, ok := ai.IntVal(a.x); ok {
				if r := []rune(n.raw); len(r) != 3 || int64(r[1]) != v {
					return fmt.Sprintf("the token %d where the text has %s", v, n.raw)
				}
				return ""
			}
		}
		if !k.st.Same(a.x, k.ltot(n.raw)) {
			return fmt.Sprintf("the token %s where the text has %s", a.x, n.raw)
		}
		return ""
	case 'm':
		if s, ok := ai.StrVal(a.name); !ok || s != n.name {
			return fmt.Sprintf("the mark %s where the text has %s", a.name, n.name)
		}
	}
	kids := a.kids
	if n.k == 's' {
		kids = nil
		cut := -1
		for i, x := range a.kids {
			if x.op == "nil" {
				if cut < 0 {
					cut = i
				}
				continue
			}
			kids = append(kids, x)
		}
		if cut != n.cut {
			return fmt.Sprintf("the cut is at %d where the text has it at %d", cut, n.cut)
		}
	}
	if len(kids) != len(n.kids) {
		return fmt.Sprintf("%s of %d operands where the text has %d", a.op, len(kids), len(n.kids))
	}
	for i, x := range kids {
		if s := k.same(x, n.kids[i]); s != "" {
			return s
		}
	}
	return ""
}

func (k *genCompare) kind(name string) int64 {
	return constVal(k.c, "tpl", name)
}

func (k *genCompare) rule(a *gg, name string) string {
	key := fmt.Sprintf("%p %s", a, name)
	if k.done[key] {
		return ""
	}
	k.done[key] = true
	if a.name != nil {
		if s, ok := ai.StrVal(a.name); !ok || s != name {
			return fmt.Sprintf("the rule %s has the name %s", name, a.name)
		}
	}
	if k.g.rules[name] == nil || len(a.kids) != 1 {
		return "the rule " + name + " has no grammar"
	}
	if s := k.same(a.kids[0], k.g.rules[name]); s != "" {
		return "rule " + name + ": " + s
	}
	return ""
}

// checkGenText decides one rule text.
func (h *genH) checkGenText(fn *ssa.Function, imp mapImporter, idx int, src string, withScanner bool) {
	c := h.c
	spec, perr := parseGrammar(src)
	bad := ""
	if perr != nil {
		bad = perr.Error()
	} else {
		if spec.rules["doc"] == nil {
			bad = "it has no rule doc"
		}
		for _, r := range spec.refs {
			if spec.rules[r.name] == nil {
				bad = "the rule " + r.name + " is not defined"
			}
		}
		for _, n := range spec.rules {
			n.walkTokens(func(t *rnode) {
				if t.raw[0] >= 'A' && t.raw[0] <= 'Z' && c.P.Pkg("tpl").Pkg.Scope().Lookup(t.raw) == nil {
					bad = "there is no token " + t.raw
				}
			})
		}
	}
	code, ok := h.generate(fn, src)
	if !ok {
		return
	}
	if bad != "" {
		h.m.Check(nil, code == "", fn.Pos(), "code is generated for the rule text %q although %s", brief(src), bad)
		return
	}
	if !h.m.Check(nil, code != "", fn.Pos(), "no code is generated for the rule text %q", brief(src)) {
		return
	}
	name := fmt.Sprintf("gen%d.go", idx)
	text := "package gen\n\nimport \"" + ai.RepoPrefix + "/tpl\"\n\n" + code
	f, pk, info, err := typeCheck(c, imp, name, text)
	if !h.m.Check(nil, err == nil, fn.Pos(), "the code generated for the rule text %q does not compile: %v", brief(src), err) {
		return
	}
	sp := c.P.Prog.CreatePackage(pk, []*ast.File{f}, info, false)
	sp.Build()
	tn, _ := pk.Scope().Lookup("StaticCompiler").(*types.TypeName)
	if !h.m.Check(nil, tn != nil, fn.Pos(), "the generated code has no StaticCompiler") {
		return
	}
	cl := ai.MethodOf(c.P.Prog, types.NewPointer(tn.Type()), pk, "Cl")
	if !h.m.Check(nil, cl != nil && cl.Signature.Results().Len() == 1, fn.Pos(), "the generated StaticCompiler has no Cl method") {
		return
	}
	// interpret the generated code
	st := c.P.Base("tpl")
	h.b.nodes, h.seen, h.gobj = map[*T]*gnode{}, map[*T]*gg{}, map[*T]*gg{}
	cT := tn.Type()
	comp := ai.NewObj("compiler", cT)
	st.Store(comp, ai.Zero(cT), cT)
	_, mt := fieldIdx(cT, "Marker")
	_, it := fieldIdx(cT, "Init")
	_, smt := fieldIdx(cT, "ScanMode")
	_, sct := fieldIdx(cT, "Scanner")
	marker, init, mode := funcSym(st, "marker", mt), funcSym(st, "init", it), ai.NewSym("mode", smt)
	scanner := ai.Nil(sct)
	if withScanner {
		scanner = ai.NewSym("scanner", sct)
		st.Assume(ai.App("isnil", ai.TBool, scanner), false)
	}
	setField(st, comp, cT, "Marker", marker)
	setField(st, comp, cT, "Init", init)
	setField(st, comp, cT, "ScanMode", mode)
	setField(st, comp, cT, "Scanner", scanner)
	lt := c.Type("tpl", "Token")
	_, kt := fieldIdx(lt, "Kind")
	m := h.m
	old := m.Hook
	defer func() { m.Hook = old }()
	var used *T
	ltot := func(raw string) *T { return ai.App("ltot", kt, ai.Str(raw)) }
	m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if outs, ok := h.b.hook(m, st, ci); ok {
			return outs, true
		}
		if ci.FnTerm == marker && ci.FnTerm != nil && len(ci.Args) == 2 {
			return []ai.Outcome{{St: st, Ret: ai.App("marked", h.b.gT, ci.Args[0], ci.Args[1])}}, true
		}
		if ci.Method != nil && ci.Method.Name() == "Ltot" && withScanner && ci.Recv == scanner {
			return []ai.Outcome{{St: st, Ret: ai.App("ltot", kt, ci.Args[0])}}, true
		}
		if !withScanner && ci.Fn != nil && ci.Fn.Signature.Recv() != nil && ci.Fn.Name() == "Ltot" {
			used = ci.Args[0]
			return []ai.Outcome{{St: st, Ret: ai.App("ltot", kt, ci.Args[1])}}, true
		}
		return nil, false
	}
	m.Steps = 0
	outs := m.Run(cl, []*T{comp}, nil, st)
	if len(outs) != 1 {
		m.Undecide("the code generated for %q has %d outcomes", brief(src), len(outs))
		return
	}
	o := outs[0]
	if !m.Check(o.St, o.Panic == nil && o.Ret != nil, fn.Pos(), "the code generated for the rule text %q panics", brief(src)) {
		return
	}
	rT := c.Type("tpl", "CompileRet")
	mT := c.Type("tpl", "Matcher")
	ro := ai.NewObj("ret", rT)
	o.St.Store(ro, o.Ret, rT)
	mo := getField(o.St, ro, rT, "Matcher")
	if !m.Check(o.St, o.St.Eval(o.St.IsNil(mo)) < 0, fn.Pos(), "the code generated for the rule text %q builds no matcher", brief(src)) {
		return
	}
	get := func(n string) *T { return getField(o.St, mo, mT, n) }
	m.Check(o.St, o.St.Same(get("Init"), init), fn.Pos(), "the generated matcher does not have the init hook of its compiler")
	m.Check(o.St, o.St.Same(get("ScanMode"), mode), fn.Pos(), "the generated matcher does not have the scan mode of its compiler")
	sc := get("Scanner")
	if withScanner {
		m.Check(o.St, o.St.Same(sc, scanner), fn.Pos(), "the generated matcher does not have the scanner of its compiler")
	} else {
		m.Check(o.St, o.St.Eval(o.St.IsNil(sc)) < 0, fn.Pos(), "the generated matcher has no scanner when its compiler has none")
		if used != nil {
			x := sc
			if x.K == ai.KIface {
				x = x.Args[0]
			}
			m.Check(o.St, x == used, fn.Pos(), "the literals of the generated grammar are looked up in another scanner than the one that scans")
		}
	}
	root, err := h.graph(o.St, get("Grammar"))
	if err != nil {
		m.Undecide("the grammar generated for %q is not understood: %v", brief(src), err)
		return
	}
	k := &genCompare{c: c, h: h, st: o.St, g: spec, done: map[string]bool{}, ltot: ltot}
	if root.op != "ref" {
		root = &gg{op: "ref", kids: []*gg{root}}
	}
	s := k.rule(root, "doc")
	m.Check(o.St, s == "", fn.Pos(), "the code generated for the rule text %q builds another grammar: %s", brief(src), s)
	// the tables by which rules are found
	gm, vm := getField(o.St, ro, rT, "Grammars"), getField(o.St, ro, rT, "Vars")
	fwd := map[string]bool{} // variables: rules referred to before they are defined
	defined := map[string]bool{}
	for _, r := range spec.order {
		for _, ref := range spec.refs {
			if ref.in == r && !defined[ref.name] {
				fwd[ref.name] = true
			}
		}
		defined[r] = true
	}
	for _, r := range spec.order {
		tab, what, vt := gm, "Grammars", h.b.gT
		if fwd[r] {
			tab, what, vt = vm, "Vars", types.Type(types.NewPointer(c.Type("tpl", "GrVar")))
		}
		v := mapGet(o.St, tab, r, vt)
		if !m.Check(o.St, v != nil && o.St.Eval(o.St.IsNil(v)) < 0, fn.Pos(), "the code generated for the rule text %q leaves the rule %s out of %s", brief(src), r, what) {
			break
		}
		x, err := h.graph(o.St, v)
		if err != nil {
			m.Undecide("%v", err)
			continue
		}
		s := k.rule(x, r)
		m.Check(o.St, s == "", fn.Pos(), "the code generated for the rule text %q: %s[%s] is another grammar: %s", brief(src), what, r, s)
	}
}

// mapGet reads an entry of a map whose contents are known.
func mapGet(st *S, mp *T, key string, vt types.Type) *T {
	if mp == nil || mp.K != ai.KObj {
		return nil
	}
	for a, v := range st.Heap {
		if a.K == ai.KMapCell && a.Args[0] == mp && v != ai.Absent() {
			if s, ok := ai.StrVal(a.Args[1]); ok && s == key {
				return v
			}
		}
	}
	return nil
}

func (n *rnode) walkTokens(f func(t *rnode)) {
	if n.k == 't' {
		f(n)
	}
	for _, k := range n.kids {
		k.walkTokens(f)
	}
}

// genTexts lists rule texts: expressions of each operator over atoms and over
// each operator, packed into rules.
func genTexts(thorough bool) (good, bad []string) {
	atoms := []string{"INT", "'+'", `"if"`, "b", "v", "1", "true", "';'", "IDENT", `"=="`}
	ai := 0
	atom := func() string { ai++; return atoms[ai%len(atoms)] }
	type shape struct {
		ar  int
		fmt func(k []string) string
	}
	par := func(s string) string { return "(" + s + ")" }
	shapes := []shape{
		{1, func(k []string) string { return "*" + k[0] }},
		{1, func(k []string) string { return "+" + k[0] }},
		{1, func(k []string) string { return "?" + k[0] }},
		{1, func(k []string) string { return "~" + k[0] }},
		{1, func(k []string) string { return "@" + k[0] }},
		{2, func(k []string) string { return k[0] + " % " + k[1] }},
		{2, func(k []string) string { return k[0] + " %= " + k[1] }},
		{1, func(k []string) string { return k[0] + "/mark" }},
		{2, func(k []string) string { return k[0] + " " + k[1] }},
		{3, func(k []string) string { return k[0] + " " + k[1] + " " + k[2] }},
		{2, func(k []string) string { return k[0] + " ! " + k[1] }},
		{3, func(k []string) string { return k[0] + " ! " + k[1] + " " + k[2] }},
		{2, func(k []string) string { return "! " + k[0] + " " + k[1] }},
		{2, func(k []string) string { return k[0] + " " + k[1] + " !" }},
		{2, func(k []string) string { return k[0] + " | " + k[1] }},
		{3, func(k []string) string { return k[0] + " | " + k[1] + " | " + k[2] }},
	}
	var exprs []string
	for _, a := range atoms {
		exprs = append(exprs, a, par(a))
	}
	var one []func() string
	for _, s := range shapes {
		s := s
		mk := func() string {
			var k []string
			for i := 0; i < s.ar; i++ {
				k = append(k, atom())
			}
			return s.fmt(k)
		}
		one = append(one, mk)
		exprs = append(exprs, mk(), mk())
	}
	for _, s := range shapes {
		for at := 0; at < s.ar; at++ {
			for _, in := range one {
				for p := 0; p < 2; p++ { // with and without parentheses
					var k []string
					for i := 0; i < s.ar; i++ {
						if i != at {
							k = append(k, atom())
						} else if p == 0 {
							k = append(k, par(in()))
						} else {
							k = append(k, in())
						}
					}
					exprs = append(exprs, s.fmt(k))
				}
			}
		}
	}
	if thorough { // three levels
		for i, s := range shapes {
			for j, t := range shapes {
				for x := range one {
					if (i+j+x)%3 != 0 {
						continue
					}
					var k, l []string
					for a := 0; a < t.ar; a++ {
						l = append(l, atom())
					}
					l[(i+x)%t.ar] = par(one[x]())
					for a := 0; a < s.ar; a++ {
						k = append(k, atom())
					}
					k[(j+x)%s.ar] = par(t.fmt(l))
					exprs = append(exprs, s.fmt(k))
				}
			}
		}
	}
	var ok []string
	for _, e := range exprs {
		if _, err := parseGrammar("doc = " + e + "\n"); err == nil {
			ok = append(ok, e)
		}
	}
	const per = 24
	for i := 0; i < len(ok); i += per {
		var sb strings.Builder
		var names []string
		j := i
		for ; j < len(ok) && j < i+per; j++ {
			names = append(names, fmt.Sprintf("r%d", j))
		}
		fwd := i/per%2 == 1 // the rules are variables: they are referred to first
		if fwd {
			sb.WriteString("all = " + strings.Join(names, " | ") + "\n")
		}
		sb.WriteString("b = INT\n")
		j = i
		for ; j < len(ok) && j < i+per; j++ {
			fmt.Fprintf(&sb, "r%d = %s\n", j, ok[j])
		}
		sb.WriteString("v = b | IDENT r" + fmt.Sprint(i) + "\n")
		if fwd {
			sb.WriteString("doc = all\n")
		} else {
			sb.WriteString("doc = " + strings.Join(names, " | ") + "\n")
		}
		good = append(good, sb.String())
	}
	good = append(good,
		"doc = INT\n",
		"doc = INT",
		"\n\ndoc = INT; x = FLOAT\n",
		"doc = a\na = b\nb = c\nc = INT doc\n",
		"a = INT b\nb = a | INT\ndoc = b a b\n",
		"doc = a a\na = b b a\nb = a\n",
		"a = b\nb = INT\nc = b\ndoc = a b c\n",
		"expr = term % '+'\nterm = factor % '*'\nfactor = INT/push | '(' expr ')'\ndoc = expr\n",
		"aB = INT\nx_Y2 = aB zZ\nzZ = FLOAT\n_u = x_Y2\ndoc = _u zZ\n",
		"doc =\n\tINT |\n\tFLOAT\n",
		"doc = INT // comment\n",
		"doc = +(+INT ';')/one *(\"x\" ',')/two\n",
	)
	var fw, bw strings.Builder
	names := strings.Fields("empty nil eof any space blank list expr term factor ident number string int float char key value pair start main grammar token rule root item name text a b x y z i n error init scanner marker mode matcher compiler stk false one kw tok and or not peek repeat list0")
	for i, n := range names {
		fmt.Fprintf(&fw, "f%d = %s INT\n", i, n)
		fmt.Fprintf(&bw, "%s = INT IDENT\ng%d = %s FLOAT\n", n, i, n)
	}
	for _, n := range names {
		fmt.Fprintf(&fw, "%s = INT IDENT\n", n)
	}
	good = append(good, fw.String()+"doc = f0\n", bw.String()+"doc = g0\n")
	bad = []string{
		"", "a = INT\n", "doc = undefined\n", "a = b\ndoc = a\n", "doc = INT\ndoc = FLOAT\n", "a = doc\ndoc = INT\ndoc = INT\n",
		"a = b\nb = INT\nb = FLOAT\ndoc = a\n", "doc = INT INT)\n", "doc = (INT\n", "doc = NOSUCH\n", "doc = 2\n", "doc =\n", "doc INT\n", "= INT\n", "doc = INT = INT\n", "doc = INT /\n", "doc = % INT\n", "doc = INT %\n", "doc = | INT\n",
		"doc = INT |\n", "doc = *\n", "doc = INT\n)", "a = INT\na = INT\ndoc = a\n", "doc = a\na = a2\n", "doc = ++INT\n", "doc = INT || INT\n",
	}
	return
}

func checkGenerator(c *Ctx) {
	fn := c.Func(relGen, "GenStaticCode")
	if fn == nil {
		return
	}
	h := &genH{c: c, b: newBuilder(c), m: c.Machine(), tokT: c.Type("tpl", "Token")}
	h.m.Hook = h.hook
	h.m.RuntimePanics = true
	h.m.Unroll = 4000
	imp := c.importer()
	good, bad := genTexts(c.Tier == "thorough")
	rules := 0
	for i, s := range good {
		h.checkGenText(fn, imp, i, s, true)
		if i < 4 || i >= len(good)-12 {
			h.checkGenText(fn, imp, len(good)+i, s, false)
		}
		if g, err := parseGrammar(s); err == nil {
			rules += len(g.order)
		}
	}
	for i, s := range bad {
		h.checkGenText(fn, imp, 10000+i, s, true)
	}
	// every token name
	sc := c.P.Pkg("tpl").Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || strings.ToUpper(n) != n || !k.Exported() || strings.HasSuffix(n, "_BEGIN") || strings.HasSuffix(n, "_END") {
			continue
		}
		h.tokenName(fn, imp, n)
	}
	c.Case("%d well-formed rule texts with %d rules, %d ill-formed ones", len(good), rules, len(bad))
	c.Absorb("GenStaticCode", h.m)
	c.Rule("the generator is interpreted on each rule text; what it returns must type-check against tpl, and interpreting it must build the grammar the text describes (operators, operands, order, tokens, marks, cuts, names), with the compiler's scanner, scan mode and init hook")
}

// tokenName: a token name is accepted when the compiler accepts it.
func (h *genH) tokenName(fn *ssa.Function, imp mapImporter, name string) {
	lt := h.c.Func("tpl", "Lit2Token")
	if lt == nil {
		return
	}
	h.m.Steps = 0
	outs := h.m.Run(lt, []*T{ai.Str(name)}, nil, h.c.P.Base("tpl"))
	if len(outs) != 1 || outs[0].Panic != nil {
		h.m.Undecide("the token name %s cannot be looked up", name)
		return
	}
	v, ok := ai.IntVal(outs[0].Ret)
	if !ok {
		h.m.Undecide("the token name %s cannot be looked up", name)
		return
	}
	src := "doc = " + name + "\n"
	if v == constVal(h.c, "tpl", "ILLEGAL") {
		code, ok := h.generate(fn, src)
		h.m.Check(nil, !ok || code == "", fn.Pos(), "code is generated for the rule text %q although there is no such token", brief(src))
		return
	}
	h.checkGenText(fn, imp, 20000, src, true)
}

var _ = token.NoPos

func init() {
	register("G01", "", checkGenerator)
}
