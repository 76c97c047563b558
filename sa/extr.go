package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

const relExtr = "tpl/extractor"

func init() {
	register("E01", "the marker and the run hook of the extractor are interpreted to get the actions and transactions of its marks; histories of marks in which nodes fail or are abandoned are interpreted and the tree they leave compared with that of what succeeded", func(c *Ctx) { checkTrees(c, "E01") })
	register("E02", "the marker of the extractor is interpreted to get the actions and transactions of its marks; all histories of marks up to a bound are interpreted and the tree they leave compared with the reference", func(c *Ctx) { checkTrees(c, "E02") })
	register("E03", "the marker and the conversion of values of the extractor are interpreted for every documented mark and for a symbolic text; the functions that parse a source are interpreted with the match as an event with every outcome", checkTyped)
}

// extrH interprets the extractor.
type extrH struct {
	c            *Ctx
	m            *ai.Machine
	st           *S
	pos          token.Pos
	engT, tokT   types.Type
	grT          types.Type
	eng          *T
	marker, init *T
	getv         *T // the option GetValue
	g            *T
	act          *T
	begin, end   *T
	wrapped      *T
	text, opts   *T
	optT         types.Type
	gets         []string
	onMatch      func(st *S, ci *ai.CallInfo) []ai.Outcome
	conv         func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool)
}

func newExtrH(c *Ctx) *extrH {
	h := &extrH{c: c, engT: c.Type(relExtr, "Engine"), tokT: c.Type("tpl", "Token"), grT: c.Type("tpl", "Grammar")}
	if h.engT == nil || h.tokT == nil || h.grT == nil {
		return nil
	}
	return h
}

// build makes an extractor; custom: with a GetValue of the user.
func (h *extrH) build(custom bool) bool {
	c := h.c
	fn := c.Func(relExtr, "New")
	optT := c.Type(relExtr, "Options")
	if fn == nil || optT == nil {
		return false
	}
	h.pos = fn.Pos()
	h.st = c.P.Base("tpl", relExtr)
	h.m = c.Machine()
	h.m.RuntimePanics = true
	h.m.Hook = h.hook
	h.marker, h.init, h.getv, h.opts = nil, nil, nil, nil
	opts := ai.Nil(fn.Signature.Params().At(1).Type())
	if custom {
		o := ai.NewObj("options", optT)
		h.st.Store(o, ai.FreshVal(h.st, "options", optT), optT)
		h.opts, h.optT = o, optT
		i, ft := fieldIdx(optT, "GetValue")
		if i < 0 {
			c.Missing("the option GetValue")
			return false
		}
		h.getv = ai.NewSym("GetValue", ft)
		h.st.Assume(ai.App("isnil", ai.TBool, h.getv), false)
		h.st.Store(ai.FieldAddr(o, i, types.NewPointer(ft)), h.getv, ft)
		opts = o
	}
	text := ai.NewSym("grammar", ai.TString)
	h.text = text
	outs := h.m.Run(fn, []*T{ai.Iface(ai.TString, text, ai.TAny), opts}, nil, h.st)
	n := 0
	for _, o := range outs {
		if e := o.St.Ghost["compile"]; e != nil {
			h.m.Check(o.St, o.Panic == nil && o.Ret != nil && o.Ret.K == ai.KTuple && o.St.Same(o.Ret.Args[1], e), h.pos, "the error of a grammar that cannot be compiled is not returned")
			continue
		}
		if o.Panic == nil && o.Ret != nil && o.Ret.K == ai.KTuple && o.St.Eval(o.St.IsNil(o.Ret.Args[1])) > 0 {
			h.st, h.eng = o.St, o.Ret.Args[0]
			n++
		}
	}
	if !h.m.Check(h.st, n == 1 && h.marker != nil && h.init != nil, h.pos, "%d ways to make an extractor (%d results)", n, len(outs)) {
		return false
	}
	h.g = ai.NewSym("g", h.grT)
	h.st.Assume(ai.App("isnil", ai.TBool, h.g), false)
	return true
}

func (h *extrH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(t *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: t}}, true }
	if ci.FnTerm != nil && h.getv != nil && ci.FnTerm == h.getv {
		return one(ai.App("got", ai.TAny, ci.Args...))
	}
	if ci.Fn == nil {
		return nil, false
	}
	fn := ci.Fn
	recv := fn.Signature.Recv()
	if recv == nil {
		if fn.Pkg != nil && fn.Pkg == h.c.P.Pkg("tpl") {
			switch fn.Name() {
			case "Action":
				h.wrapped, h.act = ci.Args[0], ci.Args[1]
				return one(ai.FreshVal(st, "marked", h.grT))
			case "Transaction":
				h.wrapped, h.begin, h.end = ci.Args[0], ci.Args[1], ci.Args[2]
				return one(ai.FreshVal(st, "marked", h.grT))
			}
		}
		if h.conv != nil {
			return h.conv(st, ci)
		}
		return nil, false
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch {
	case fn.Name() == "Cl" && types.Identical(t, h.c.Type("tpl", "Compiler")):
		comp := ci.Args[0]
		get := func(name string) *T {
			i, ft := fieldIdx(t, name)
			if i < 0 {
				return nil
			}
			return st.Load(ai.FieldAddr(comp, i, types.NewPointer(ft)), ft)
		}
		h.marker, h.init = get("Marker"), get("Init")
		if h.text != nil {
			g, sc, sm := get("Grammar"), get("Scanner"), get("ScanMode")
			m.Check(st, g != nil && isBytesOf(g, h.text), ci.Pos(), "something else than the given grammar is compiled")
			if h.opts != nil && sc != nil && sm != nil {
				for name, v := range map[string]*T{"Scanner": sc, "ScanMode": sm} {
					i, ft := fieldIdx(h.optT, name)
					if m.Check(st, i >= 0, ci.Pos(), "the option %s is missing", name) {
						m.Check(st, st.Same(v, st.Load(ai.FieldAddr(h.opts, i, types.NewPointer(ft)), ft)), ci.Pos(), "the grammar is not compiled with the %s of the options", name)
					}
				}
			}
			e := ai.NewSym("compile-error", errType())
			sf := st.Clone()
			sf.Assume(ai.App("isnil", ai.TBool, e), false)
			sf.Ghost["compile"] = e
			rt := fn.Signature.Results().At(0).Type()
			return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.FreshVal(st, "compiled", rt), ai.Nil(errType()))}, {St: sf, Ret: ai.Tuple(ai.Zero(rt), e)}}, true
		}
		return one(ai.Tuple(ai.FreshVal(st, "compiled", fn.Signature.Results().At(0).Type()), ai.Nil(errType())))
	case strings.HasPrefix(fn.Name(), "MatchExactly") && h.onMatch != nil:
		return h.onMatch(st, ci), true
	}
	return nil, false
}

// mark makes the action or transaction of a mark; it reports a panic.
func (h *extrH) mark(mark *T) (act, begin, end, panics *T, ok bool) {
	h.act, h.begin, h.end, h.wrapped = nil, nil, nil, nil
	outs := h.m.CallValue(h.marker, []*T{h.g, mark}, h.st)
	if len(outs) != 1 {
		h.m.Check(h.st, false, h.pos, "the mark %s has %d results", mark, len(outs))
		return
	}
	if outs[0].Panic != nil {
		return nil, nil, nil, outs[0].Panic, true
	}
	h.st = outs[0].St
	if !h.m.Check(h.st, (h.act == nil) != (h.begin == nil) && h.wrapped == h.g, h.pos, "the mark %s becomes neither an action nor a transaction of its grammar", mark) {
		return
	}
	return h.act, h.begin, h.end, nil, true
}

func (h *extrH) tokens(st *S, n int) (*T, *T) {
	t := types.NewSlice(h.tokT)
	o := ai.NewObj("tokens", types.NewArray(h.tokT, int64(n)+1))
	var first *T
	for i := 0; i <= n; i++ {
		v := ai.FreshVal(st, fmt.Sprintf("tok%d", i), h.tokT)
		if i == 0 {
			first = v
		}
		st.Store(ai.IndexAddr(o, ai.Int(int64(i)), types.NewPointer(h.tokT)), v, h.tokT)
	}
	return ai.SliceT(t, o, ai.Int(0), ai.Int(int64(n)), ai.Int(int64(n)+1)), first
}

// lit is the text of a token value.
func (h *extrH) lit(tok *T) *T {
	i, _ := fieldIdx(h.tokT, "Literal")
	if i < 0 || tok.K != ai.KStruct {
		return nil
	}
	return tok.Args[i]
}

// ---- histories

// a tree of what was extracted
type xnode struct {
	leaves map[string]*T     // plain leaves
	lists  map[string][]*T   // arrays of leaves
	nodes  map[string]*xnode // plain nodes
	arrays map[string][]*xnode
}

func newXnode() *xnode {
	return &xnode{map[string]*T{}, map[string][]*T{}, map[string]*xnode{}, map[string][]*xnode{}}
}

// xop is a step: a leaf, or a node with its content.
type xop struct {
	tag    string
	kind   byte // 'l' leaf, 'L' array of leaves, 'n' node, 'N' array of nodes
	sub    []xop
	fails  bool
	aborts bool // left by a panic
}

func (o xop) String() string {
	s := o.tag
	switch o.kind {
	case 'l':
		return s
	case 'L':
		return s + "[]"
	case 'N':
		s += "[]"
	}
	var ks []string
	for _, k := range o.sub {
		ks = append(ks, k.String())
	}
	s += "{" + strings.Join(ks, " ") + "}"
	if o.fails {
		s += "-fails"
	}
	if o.aborts {
		s += "-aborts"
	}
	return s
}

func opsString(ops []xop) string {
	var ks []string
	for _, k := range ops {
		ks = append(ks, k.String())
	}
	return strings.Join(ks, " ")
}

type xfns struct{ act, begin, end *T }

var leafTypes = []string{"Int", "Float", "String", "Text", "Char", "Bool"}

// marks makes the functions of every kind of mark of a tag.
func (h *extrH) marks(tags []string) (map[string]xfns, bool) {
	out := map[string]xfns{}
	for _, t := range tags {
		for kind, sufs := range map[byte][]string{'l': {"_Int"}, 'L': {"_Ints", "_IntArray"}, 'n': {"_Node"}, 'N': {"_NodeArray", "_Nodes"}} {
			for i, s := range sufs {
				a, b, e, p, ok := h.mark(ai.Str(t + s))
				if !ok || !h.m.Check(h.st, p == nil, h.pos, "the mark %s is refused", t+s) {
					return nil, false
				}
				if !h.m.Check(h.st, (a != nil) == (kind == 'l' || kind == 'L'), h.pos, "the mark %s is of the wrong kind", t+s) {
					return nil, false
				}
				out[fmt.Sprintf("%s%c%d", t, kind, i)] = xfns{a, b, e}
			}
		}
	}
	return out, true
}

// call runs a function of a mark.
func (h *extrH) call(st *S, fn *T, args []*T, what string) (*S, *T) {
	outs := h.m.CallValue(fn, args, st)
	if !h.m.Check(st, len(outs) == 1 && outs[0].Panic == nil, h.pos, "%s: a mark has %d results or panics", what, len(outs)) {
		return nil, nil
	}
	return outs[0].St, outs[0].Ret
}

// play runs a history and gives the tree it has to leave.
func (h *extrH) play(st *S, fs map[string]xfns, ops []xop, x *xnode, what string) *S {
	for i, o := range ops {
		f := fs[fmt.Sprintf("%s%c%d", o.tag, o.kind, 0)]
		if g, ok := fs[fmt.Sprintf("%s%c%d", o.tag, o.kind, i%2)]; ok {
			f = g
		}
		switch o.kind {
		case 'l', 'L':
			toks, first := h.tokens(st, 1+i%2)
			if st, _ = h.call(st, f.act, []*T{toks, h.g}, what); st == nil {
				return nil
			}
			v := ai.App("got", ai.TAny, ai.Str("Int"), h.lit(first))
			if o.kind == 'l' {
				x.leaves[o.tag] = v
			} else {
				x.lists[o.tag] = append(x.lists[o.tag], v)
			}
		default:
			var ctx *T
			if st, ctx = h.call(st, f.begin, nil, what); st == nil {
				return nil
			}
			y := newXnode()
			if st = h.play(st, fs, o.sub, y, what); st == nil {
				return nil
			}
			if o.aborts {
				return st
			}
			err := ai.Nil(errType())
			if o.fails {
				err = ai.NewSym("failure", errType())
				st.Assume(ai.App("isnil", ai.TBool, err), false)
			}
			if st, _ = h.call(st, f.end, []*T{ctx, err}, what); st == nil {
				return nil
			}
			if !o.fails {
				if o.kind == 'n' {
					x.nodes[o.tag] = y
				} else {
					x.arrays[o.tag] = append(x.arrays[o.tag], y)
				}
			}
		}
	}
	return st
}

func (h *extrH) elems(st *S, l *T, et types.Type) ([]*T, bool) {
	n, ok := ai.IntVal(st.Len(l))
	if !ok {
		return nil, false
	}
	var out []*T
	if n == 0 {
		return nil, true
	}
	arr, lo, _, _ := st.SliceParts(l)
	for i := int64(0); i < n; i++ {
		out = append(out, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(et)), et))
	}
	return out, true
}

// sameTree compares a map with a tree; "" if they agree.
func (h *extrH) sameTree(st *S, m *T, x *xnode) string {
	mt := types.NewMap(ai.TString, ai.TAny)
	n := len(x.leaves) + len(x.lists) + len(x.nodes) + len(x.arrays)
	if m == nil {
		return "there is no tree"
	}
	if st.Eval(st.IsNil(m)) > 0 {
		if n > 0 {
			return "the tree is empty"
		}
		return ""
	}
	keys, ok := st.MapKeys(m)
	if !ok {
		return "the tree is not known"
	}
	has := map[string]bool{}
	for _, k := range keys {
		s, ok := ai.StrVal(k)
		if !ok {
			return "a name in the tree is not known"
		}
		in, _ := st.MapHas(m, k, mt)
		if in < 0 {
			continue
		}
		has[s] = true
	}
	var names []string
	for s := range has {
		names = append(names, s)
	}
	sort.Strings(names)
	count := 0
	for _, s := range names {
		in, v := st.MapHas(m, ai.Str(s), mt)
		if in <= 0 {
			return "it is not known whether the tree has " + s
		}
		switch {
		case x.leaves[s] != nil:
			if !st.Same(v, x.leaves[s]) {
				return fmt.Sprintf("%s is %s instead of the value of its text", s, v)
			}
		case x.lists[s] != nil:
			if v.K != ai.KIface || !types.Identical(v.Typ, types.NewSlice(ai.TAny)) {
				return s + " is no array"
			}
			es, ok := h.elems(st, v.Args[0], ai.TAny)
			if !ok || len(es) != len(x.lists[s]) {
				return fmt.Sprintf("%s has %d elements instead of %d", s, len(es), len(x.lists[s]))
			}
			for i, e := range es {
				if !st.Same(e, x.lists[s][i]) {
					return fmt.Sprintf("element %d of %s is %s", i, s, e)
				}
			}
		case x.nodes[s] != nil:
			if v.K != ai.KIface || !types.Identical(v.Typ, mt) {
				return s + " is no node"
			}
			if e := h.sameTree(st, v.Args[0], x.nodes[s]); e != "" {
				return s + ": " + e
			}
		case x.arrays[s] != nil:
			if v.K != ai.KIface || !types.Identical(v.Typ, types.NewSlice(mt)) {
				return s + " is no array of nodes"
			}
			es, ok := h.elems(st, v.Args[0], mt)
			if !ok || len(es) != len(x.arrays[s]) {
				return fmt.Sprintf("%s has %d elements instead of %d", s, len(es), len(x.arrays[s]))
			}
			for i, e := range es {
				if d := h.sameTree(st, e, x.arrays[s][i]); d != "" {
					return fmt.Sprintf("element %d of %s: %s", i, s, d)
				}
			}
		default:
			return "the tree has " + s + ", which was not extracted"
		}
		count++
	}
	if count != n {
		return fmt.Sprintf("the tree has %d entries instead of %d", count, n)
	}
	return ""
}

// hist enumerates histories of up to n steps over kinds of tags; a tag that is
// no array occurs at most once in a node.
func hist(kinds map[string]byte, tags []string, n, depth int, fails bool, emit func([]xop)) {
	var rec func(ops []xop, left int)
	rec = func(ops []xop, left int) {
		emit(append([]xop(nil), ops...))
		if left == 0 {
			return
		}
		for _, t := range tags {
			k := kinds[t]
			if k == 'l' || k == 'n' {
				dup := false
				for _, o := range ops {
					dup = dup || o.tag == t && !o.fails
				}
				if dup {
					continue
				}
			}
			switch k {
			case 'l', 'L':
				rec(append(ops, xop{tag: t, kind: k}), left-1)
			default:
				var subs [][]xop
				if depth == 0 {
					subs = [][]xop{nil}
				} else {
					hist(kinds, tags, left-1, depth-1, fails, func(s []xop) { subs = append(subs, s) })
				}
				for _, s := range subs {
					rest := left - 1 - size(s)
					if rest < 0 {
						continue
					}
					rec(append(ops, xop{tag: t, kind: k, sub: s}), rest)
					if fails {
						rec(append(ops, xop{tag: t, kind: k, sub: s, fails: true}), rest)
					}
				}
			}
		}
	}
	rec(nil, n)
}

func size(ops []xop) int {
	n := 0
	for _, o := range ops {
		n += 1 + size(o.sub)
	}
	return n
}

func anyFail(ops []xop) bool {
	for _, o := range ops {
		if o.fails || anyFail(o.sub) {
			return true
		}
	}
	return false
}

// result runs Result on the extractor.
func (h *extrH) result(st *S, fn *ssa.Function) (*S, *T) {
	outs := h.m.Run(fn, []*T{h.eng}, nil, st)
	if len(outs) != 1 || outs[0].Panic != nil {
		return nil, nil
	}
	return outs[0].St, outs[0].Ret
}

func checkTrees(c *Ctx, id string) {
	if id == "E01" {
		c.Rule("the tree of an extraction consists of what was extracted in nodes that matched: nothing of a node whose grammar failed, or of an earlier extraction, even one left by a panic, is in it, and what was extracted before is still there")
	} else {
		c.Rule("the tree has, for each tag, the value of its leaf, the tree of its node, or the array of those in the order they were extracted, however marks of other tags are interleaved, and nothing else; the value of a leaf is that of the text of its first token")
	}
	h := newExtrH(c)
	if h == nil || !h.build(true) {
		if h != nil && h.m != nil {
			c.Absorb("New", h.m)
		}
		return
	}
	fs, ok := h.marks([]string{"a", "b", "a_b"})
	if !ok {
		c.Absorb("marks", h.m)
		return
	}
	res := ai.MethodOf(c.P.Prog, types.NewPointer(h.engT), c.P.Pkg(relExtr).Pkg, "Result")
	if res == nil {
		c.Missing("method Result")
		return
	}
	start := func(st *S) *S {
		outs := h.m.CallValue(h.init, nil, st)
		if !h.m.Check(st, len(outs) == 1 && outs[0].Panic == nil, h.pos, "the run hook has %d results", len(outs)) {
			return nil
		}
		return outs[0].St
	}
	max := 4
	if c.Tier == "thorough" {
		max = 5
	}
	n, bad := 0, 0
	try := func(before, ops []xop) {
		if bad > 5 {
			return
		}
		n++
		if n%200 == 0 {
			c.Absorb("histories", h.m)
			h.m.Steps = 0
		}
		what := opsString(ops)
		st := h.st.Clone()
		if before != nil {
			what = opsString(before) + "; " + what
			if st = start(st); st == nil {
				bad++
				return
			}
			if st = h.play(st, fs, before, newXnode(), what); st == nil {
				bad++
				return
			}
		}
		if st = start(st); st == nil {
			bad++
			return
		}
		x := newXnode()
		if st = h.play(st, fs, ops, x, what); st == nil {
			bad++
			return
		}
		s, r := h.result(st, res)
		if !h.m.Check(st, s != nil, fnPos2(res), "%s: the tree cannot be made", what) {
			bad++
			return
		}
		d := h.sameTree(s, r, x)
		if !h.m.Check(s, d == "", fnPos2(res), "%s: %s", what, d) {
			bad++
		}
	}
	tags := []string{"a", "b"}
	for _, ka := range "lLnN" {
		for _, kb := range "lLnN" {
			kinds := map[string]byte{"a": byte(ka), "b": byte(kb)}
			hist(kinds, tags, max, 2, id == "E01", func(ops []xop) {
				if (id == "E01") == anyFail(ops) {
					try(nil, ops)
				}
			})
		}
	}
	if id == "E01" {
		// a run behind another one
		for _, before := range [][]xop{
			{{tag: "a", kind: 'l'}},
			{{tag: "a", kind: 'L'}, {tag: "b", kind: 'n'}},
			{{tag: "a", kind: 'n', aborts: true}},
			{{tag: "b", kind: 'L'}, {tag: "a", kind: 'n', sub: []xop{{tag: "b", kind: 'l'}}, aborts: true}},
			{{tag: "a", kind: 'N', sub: []xop{{tag: "b", kind: 'l'}, {tag: "a", kind: 'n', aborts: true}}, aborts: true}},
			{{tag: "a", kind: 'n', fails: true}},
		} {
			for _, ops := range [][]xop{nil, {{tag: "a", kind: 'l'}}, {{tag: "a", kind: 'L'}, {tag: "b", kind: 'L'}}, {{tag: "a", kind: 'n', sub: []xop{{tag: "b", kind: 'l'}}}}, {{tag: "a", kind: 'N'}, {tag: "a", kind: 'N', fails: true}}} {
				try(before, ops)
			}
		}
	} else {
		// long runs of two arrays
		for bits := 0; bits < 1<<7; bits++ {
			for _, ks := range []string{"LL", "NN", "LN"} {
				var ops []xop
				for i := 0; i < 7; i++ {
					b := bits >> uint(i) & 1
					o := xop{tag: tags[b], kind: ks[b]}
					if o.kind == 'N' && i%2 == 0 {
						o.sub = []xop{{tag: "a_b", kind: 'l'}}
					}
					ops = append(ops, o)
				}
				try(nil, ops)
			}
		}
	}
	c.Absorb("histories", h.m)
	c.Case("%d histories of up to %d marks", n, max)
}

// ---- marks, values and results

func checkTyped(c *Ctx) {
	c.Rule("a mark is tag_Type, for an array tag_Types or tag_TypeArray, whose tag may have underscores itself; one without an underscore is refused")
	c.Rule("by default the value of a leaf is: Int, the decimal integer of 64 bits; Float, the number; String, the text unquoted; Char, its byte; Bool, the truth value; Text, the text itself; one that cannot be converted, or a type that is not known, is a panic with a string or an error")
	c.Rule("the functions that extract from a source match the whole of it, once, under its name, and return the tree it left; if the match fails they return its error and no tree; the safe ones turn a panic with a string or an error into that error")
	h := newExtrH(c)
	if h == nil {
		return
	}
	if h.build(true) {
		h.markForms()
	}
	c.Absorb("marks", h.m)
	if h.build(false) {
		h.values()
	}
	h.conv = nil
	c.Absorb("values", h.m)
	if h.build(true) {
		h.results()
	}
	h.onMatch = nil
	c.Absorb("results", h.m)
}

// markForms checks which type, tag and shape a mark stands for.
func (h *extrH) markForms() {
	c := h.c
	res := ai.MethodOf(c.P.Prog, types.NewPointer(h.engT), c.P.Pkg(relExtr).Pkg, "Result")
	if res == nil {
		c.Missing("method Result")
		return
	}
	n := 0
	for _, tag := range []string{"x", "a_b", "items", "Node", "x_Int", "s", "xArray", "_", "Int_s", "a_s", "a_b_c", "first_of_all_of_them", "a__b", "__"} {
		for _, typ := range append([]string{"Node", "Any"}, leafTypes...) {
			for _, suf := range []string{"", "s", "Array"} {
				n++
				mk := tag + "_" + typ + suf
				a, b, e, p, ok := h.mark(ai.Str(mk))
				if !ok {
					return
				}
				if !h.m.Check(h.st, p == nil, h.pos, "the mark %s is refused", mk) || !h.m.Check(h.st, (b != nil) == (typ == "Node"), h.pos, "the mark %s is of the wrong kind", mk) {
					continue
				}
				outs := h.m.CallValue(h.init, nil, h.st.Clone())
				if !h.m.Check(h.st, len(outs) == 1 && outs[0].Panic == nil, h.pos, "the run hook has %d results", len(outs)) {
					return
				}
				st := outs[0].St
				x := newXnode()
				if typ == "Node" {
					var ctx *T
					if st, ctx = h.call(st, b, nil, mk); st == nil {
						return
					}
					if st, _ = h.call(st, e, []*T{ctx, ai.Nil(errType())}, mk); st == nil {
						return
					}
					if suf == "" {
						x.nodes[tag] = newXnode()
					} else {
						x.arrays[tag] = []*xnode{newXnode()}
					}
				} else {
					toks, first := h.tokens(st, 1)
					if st, _ = h.call(st, a, []*T{toks, h.g}, mk); st == nil {
						return
					}
					v := ai.App("got", ai.TAny, ai.Str(typ), h.lit(first))
					if suf == "" {
						x.leaves[tag] = v
					} else {
						x.lists[tag] = []*T{v}
					}
				}
				s, r := h.result(st, res)
				if h.m.Check(st, s != nil, fnPos2(res), "%s: the tree cannot be made", mk) {
					d := h.sameTree(s, r, x)
					h.m.Check(s, d == "", fnPos2(res), "the mark %s: %s", mk, d)
				}
			}
		}
	}
	for _, mk := range []string{"", "x", "Int", "Ints", "NodeArray", "Array", "s"} {
		n++
		_, _, _, p, ok := h.mark(ai.Str(mk))
		if ok {
			h.m.Check(h.st, p != nil && !runtimePanic(p), h.pos, "the mark %q, which has no tag, is accepted", mk)
		}
	}
	c.Case("%d marks", n)
}

// runtimePanic: a panic of the runtime, not one of the code.
func runtimePanic(p *T) bool {
	return !(p.K == ai.KIface)
}

// values checks the default conversion of each type.
func (h *extrH) values() {
	c := h.c
	type call struct {
		fn   string
		args []*T
		ret  []*T
	}
	var calls []call
	res := ai.MethodOf(c.P.Prog, types.NewPointer(h.engT), c.P.Pkg(relExtr).Pkg, "Result")
	if res == nil {
		c.Missing("method Result")
		return
	}
	h.conv = func(st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Fn.Pkg == nil || ci.Fn.Pkg.Pkg.Path() != "strconv" {
			return nil, false
		}
		sig := ci.Fn.Signature
		rs := sig.Results()
		if rs.Len() < 2 {
			return nil, false
		}
		var good, bad []*T
		for i := 0; i < rs.Len()-1; i++ {
			good = append(good, ai.FreshVal(st, ci.Fn.Name(), rs.At(i).Type()))
		}
		e := ai.NewSym("conversion-error", errType())
		sf := st.Clone()
		sf.Assume(ai.App("isnil", ai.TBool, e), false)
		bad = append(append(bad, good...), e)
		calls = append(calls, call{ci.Fn.Name(), ci.Args, good})
		sf.Ghost["failed"] = e
		sg := st.Clone()
		sg.Ghost["conv"] = ai.Int(int64(len(calls) - 1))
		return []ai.Outcome{{St: sg, Ret: ai.Tuple(append(append([]*T{}, good...), ai.Nil(errType()))...)}, {St: sf, Ret: ai.Tuple(bad...)}}, true
	}
	n := 0
	for _, typ := range append([]string{"", "int", "Any", "Node2"}, leafTypes...) {
		n++
		calls = nil
		a, _, _, p, ok := h.mark(ai.Str("x_" + typ))
		if !ok || p != nil || a == nil {
			h.m.Check(h.st, typ == "" && p != nil, h.pos, "the mark x_%s makes no leaf", typ)
			continue
		}
		outs := h.m.CallValue(h.init, nil, h.st.Clone())
		if len(outs) != 1 || outs[0].Panic != nil {
			return
		}
		st := outs[0].St
		toks, first := h.tokens(st, 1)
		lit := h.lit(first)
		st.Assume(ai.GE0(ai.LinOf(ai.AddK(st.Len(lit), -2))), true)
		good, failed := 0, 0
		for _, o := range h.m.CallValue(a, []*T{toks, h.g}, st) {
			s := o.St
			fe := s.Ghost["failed"]
			if o.Panic != nil {
				failed++
				pv := o.Panic
				isErr := fe != nil && (s.Same(pv, fe) || samePanic(s, pv, fe))
				isStr := pv.K == ai.KIface && types.Identical(pv.Typ, ai.TString)
				h.m.Check(s, isErr || isStr, h.pos, "%s: a text that cannot be converted is a panic with %s", typ, pv)
				if !isErr && fe == nil && typ == "Char" {
					cv := s.Ghost["conv"]
					k, isK := int64(0), false
					if cv != nil {
						k, isK = ai.IntVal(cv)
					}
					if h.m.Check(s, isK, h.pos, "Char: refused without looking at it") {
						rt := calls[k].ret
						h.m.Check(s, s.Eval(rt[1]) > 0 || !mayBeEmpty(s, rt[2]), h.pos, "Char: a text of one byte is refused")
					}
				} else if isStr && fe == nil {
					h.m.Check(s, calls == nil && !isLeafType(typ), h.pos, "%s: a text that can be converted is refused", typ)
				}
				continue
			}
			good++
			if !h.m.Check(s, fe == nil, h.pos, "%s: a text that cannot be converted has a value", typ) || !h.m.Check(s, isLeafType(typ), h.pos, "the unknown type %q is accepted", typ) {
				continue
			}
			s2, r := h.result(s, res)
			if !h.m.Check(s, s2 != nil, h.pos, "%s: the tree cannot be made", typ) {
				continue
			}
			in, v := s2.MapHas(r, ai.Str("x"), types.NewMap(ai.TString, ai.TAny))
			if !h.m.Check(s2, in > 0 && v.K == ai.KIface, h.pos, "%s: the value is not known", typ) {
				continue
			}
			if typ == "Text" {
				h.m.Check(s2, types.Identical(v.Typ, ai.TString) && s2.Same(v.Args[0], lit), h.pos, "Text: the value is %s", v)
				continue
			}
			var k int64 = -1
			if cv := s.Ghost["conv"]; cv != nil {
				k, _ = ai.IntVal(cv)
			}
			if !h.m.Check(s2, k >= 0, h.pos, "%s: the value %s is not a conversion of the text", typ, v) {
				continue
			}
			cl := calls[k]
			want := map[string]string{"Int": "ParseInt", "Float": "ParseFloat", "String": "Unquote", "Char": "UnquoteChar", "Bool": "ParseBool"}[typ]
			if !h.m.Check(s2, cl.fn == want, h.pos, "%s: the text is converted by %s", typ, cl.fn) {
				continue
			}
			val := v.Args[0]
			num := func(i int, ks ...int64) bool {
				x, ok := ai.IntVal(cl.args[i])
				for _, k := range ks {
					if ok && x == k {
						return true
					}
				}
				return false
			}
			switch typ {
			case "Char":
				body := cl.args[0]
				h.m.Check(s2, h.middle(s2, body, lit), h.pos, "Char: %s is converted instead of what is between the quotes", body)
				q, ok := ai.IntVal(cl.args[1])
				h.m.Check(s2, ok && q == '\'', h.pos, "Char: the quote is not '")
				h.m.Check(s2, types.Identical(v.Typ, types.Typ[types.Uint8]) && mentions(val, cl.ret[0]), h.pos, "Char: the value is %s", v)
				h.m.Check(s2, s2.Eval(cl.ret[1]) < 0, h.pos, "Char: a character of several bytes is accepted")
				h.m.Check(s2, s2.EQ(s2.Len(cl.ret[2]), ai.Int(0)) || s2.Eval(s2.Eq(cl.ret[2], ai.Str(""))) > 0, h.pos, "Char: several characters are accepted")
			default:
				h.m.Check(s2, s2.Same(cl.args[0], lit), h.pos, "%s: %s is converted instead of the text", typ, cl.args[0])
				vt := map[string]types.Type{"Int": types.Typ[types.Int64], "Float": types.Typ[types.Float64], "String": ai.TString, "Bool": ai.TBool}[typ]
				h.m.Check(s2, types.Identical(v.Typ, vt) && s2.Same(val, cl.ret[0]), h.pos, "%s: the value is %s", typ, v)
				switch typ {
				case "Int":
					h.m.Check(s2, num(1, 10) && num(2, 64, 0), h.pos, "Int: the text is not read as a decimal number of 64 bits")
				case "Float":
					h.m.Check(s2, num(1, 64), h.pos, "Float: the text is not read as a number of 64 bits")
				}
			}
		}
		if isLeafType(typ) {
			h.m.Check(st, good > 0 && (failed > 0) == (typ != "Text"), h.pos, "%s: %d values, %d refusals", typ, good, failed)
		} else {
			h.m.Check(st, failed > 0, h.pos, "the unknown type %q is not refused", typ)
		}
	}
	c.Case("%d types", n)
}

func mayBeEmpty(st *S, t *T) bool {
	return !st.GE(st.Len(t), ai.Int(1)) && st.Eval(st.Eq(t, ai.Str(""))) >= 0
}

func isLeafType(t string) bool {
	for _, l := range leafTypes {
		if l == t {
			return true
		}
	}
	return false
}

// middle: a text is what is between the first and the last byte of another.
func (h *extrH) middle(st *S, b, lit *T) bool {
	n := st.Len(lit)
	if b.K != ai.KApp || b.Name != "substr" {
		return false
	}
	return st.Same(b.Args[0], lit) && st.Same(b.Args[1], ai.Int(1)) && st.Same(b.Args[2], ai.AddK(n, -1))
}

// results checks the functions that extract from a source.
func (h *extrH) results() {
	c := h.c
	fs, ok := h.marks([]string{"a", "b"})
	if !ok {
		return
	}
	pkg := c.P.Pkg(relExtr).Pkg
	cases := 0
	for _, name := range []string{"Parse", "SafeParse", "Extract", "SafeExtract"} {
		fn := ai.MethodOf(c.P.Prog, types.NewPointer(h.engT), pkg, name)
		if fn == nil {
			c.Missing("method " + name)
			continue
		}
		safe := name != "Parse"
		for oi, ops := range [][]xop{nil, {{tag: "a", kind: 'l'}, {tag: "b", kind: 'N', sub: []xop{{tag: "a", kind: 'L'}}}}} {
			_ = oi
			cases++
			what := name + " of " + opsString(ops)
			st := h.st.Clone()
			src := ai.FreshVal(st, "code", types.NewSlice(types.Typ[types.Byte]))
			text := ai.FreshVal(st, "src", ai.TString)
			fname := ai.FreshVal(st, "fname", ai.TString)
			args := []*T{h.eng}
			named := false
			for i := 1; i < ai.NumIn(fn.Signature); i++ {
				switch t := ai.ParamType(fn.Signature, i); {
				case types.Identical(t, ai.TString) && i == 1:
					args = append(args, text)
				case types.Identical(t, ai.TString):
					args = append(args, fname)
					named = true
				default:
					args = append(args, src)
				}
			}
			x := newXnode()
			var merr, perr, pstr, pother *T
			h.onMatch = func(st *S, ci *ai.CallInfo) []ai.Outcome {
				if !h.m.Check(st, st.Ghost["match"] == nil, ci.Pos(), "%s: the source is matched again", what) {
					return nil
				}
				given := false
				fn2 := !named
				for _, a := range ci.Args {
					given = given || st.Same(a, src) || isBytesOf(a, text)
					fn2 = fn2 || st.Same(a, fname)
				}
				h.m.Check(st, given && fn2, ci.Pos(), "%s: something else than the given source is matched", what)
				outs := h.m.CallValue(h.init, nil, st)
				if len(outs) != 1 {
					return nil
				}
				st = outs[0].St
				x = newXnode()
				if st = h.play(st, fs, ops, x, what); st == nil {
					return nil
				}
				mk := func(r string) *S {
					s := st.Clone()
					s.Ghost["match"] = ai.Str(r)
					return s
				}
				merr = ai.NewSym("mismatch", errType())
				perr = ai.NewSym("panicking", errType())
				st.Assume(ai.App("isnil", ai.TBool, merr), false)
				st.Assume(ai.App("isnil", ai.TBool, perr), false)
				st.Assume(ai.TypeIs(perr, ai.TString), false)
				pstr = ai.Iface(ai.TString, ai.FreshVal(st, "text", ai.TString), ai.TAny)
				pother = ai.Iface(ai.TInt, ai.FreshVal(st, "other", ai.TInt), ai.TAny)
				return []ai.Outcome{{St: mk("ok"), Ret: ai.Nil(errType())}, {St: mk("error"), Ret: merr}, {St: mk("panic-error"), Panic: perr}, {St: mk("panic-string"), Panic: pstr}, {St: mk("panic-other"), Panic: pother}}
			}
			seen := map[string]int{}
			for _, o := range h.m.Run(fn, args, nil, st) {
				s := o.St
				g := s.Ghost["match"]
				if !h.m.Check(s, g != nil, fn.Pos(), "%s: ends without matching the source", what) {
					continue
				}
				r, _ := ai.StrVal(g)
				seen[r]++
				if o.Panic != nil {
					want := map[string]*T{"panic-other": pother}
					if !safe {
						want["panic-error"], want["panic-string"] = perr, pstr
					}
					w := want[r]
					h.m.Check(s, w != nil && (s.Same(o.Panic, w) || samePanic(s, o.Panic, w)), fn.Pos(), "%s: after %q a panic with %s escapes", what, r, o.Panic)
					continue
				}
				if !h.m.Check(s, r != "panic-other" && (safe || !strings.HasPrefix(r, "panic")), fn.Pos(), "%s: a panic with something else than a string or an error is lost", what) {
					continue
				}
				doc, err := o.Ret.Args[0], o.Ret.Args[1]
				switch r {
				case "ok":
					h.m.Check(s, s.Eval(s.IsNil(err)) > 0, fn.Pos(), "%s: after a match an error is returned", what)
					d := h.sameTree(s, doc, x)
					h.m.Check(s, d == "", fn.Pos(), "%s: %s", what, d)
				case "error":
					h.m.Check(s, s.Same(err, merr), fn.Pos(), "%s: the error returned is %s instead of that of the match", what, err)
				case "panic-error":
					h.m.Check(s, s.Same(err, perr) || samePanic(s, err, perr), fn.Pos(), "%s: the error returned is %s instead of that of the panic", what, err)
				case "panic-string":
					h.m.Check(s, s.Eval(s.IsNil(err)) < 0 && errMentions(s, err, pstr.Args[0]), fn.Pos(), "%s: the error returned (%s) does not have the text of the panic", what, err)
				}
				if r != "ok" {
					h.m.Check(s, s.Eval(s.IsNil(doc)) > 0, fn.Pos(), "%s: after %q there is a tree", what, r)
				}
			}
			h.m.Check(st, len(seen) == 5, fn.Pos(), "%s: %d of 5 results of a match are handled", what, len(seen))
		}
	}
	c.Case("%d calls", cases)
}
