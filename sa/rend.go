package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Property C15: the rule text rendered for a grammar reads as that grammar.
// A Go file with one function per grammar tree is built in memory and
// type-checked against tpl; interpreting the functions builds the trees with
// the constructors of tpl and renders them. The texts are read by the reader
// of rule texts (gtpl.go) and compared with the trees.

// tree is a grammar to render: the Go expression that builds it and what it
// is.
type tree struct {
	expr string
	n    *rnode
}

const rendToken = 1000 // the kinds of the tokens in the trees count from here

func leafTree(i int) tree {
	switch i % 4 {
	case 1:
		return tree{fmt.Sprintf(`tpl.Named("n%d", tpl.Gr(1))`, i), &rnode{k: 'r', name: fmt.Sprintf("n%d", i)}}
	case 2:
		e := fmt.Sprintf(`tpl.Var("v%d")`, i)
		if i%8 == 2 {
			e = fmt.Sprintf(`&tpl.GrVar{Name: "v%d", Elem: tpl.Or(tpl.GrTrue, tpl.Gr(1))}`, i)
		}
		return tree{e, &rnode{k: 'r', name: fmt.Sprintf("v%d", i)}}
	case 3:
		return tree{"tpl.GrTrue", &rnode{k: '1'}}
	}
	return tree{fmt.Sprintf("tpl.Gr(%d)", rendToken+i), &rnode{k: 't', raw: rendLit(int64(rendToken + i))}}
}

// rendLit is the literal that the scanner of the check has for a token.
func rendLit(kind int64) string {
	switch k := kind - rendToken; k {
	case 0, 4:
		return fmt.Sprintf("TOKEN%d", k)
	case 8:
		return `"++"`
	case 12:
		return `'+'`
	default:
		return fmt.Sprintf("%q", fmt.Sprintf("kw%d", k))
	}
}

type treeOp struct {
	name  string
	arity int
	cuts  string // And: positions of the cuts as a pattern: x operand, ! cut
	k     byte
	fn    string
}

var treeOps = []treeOp{
	{"and", 2, "xx", 's', "And"}, {"and!", 2, "x!x", 's', "And"}, {"!and", 2, "!xx", 's', "And"}, {"and3", 3, "xx!x", 's', "And"},
	{"cut", 1, "!x", 's', "And"}, {"cut end", 1, "x!", 's', "And"}, {"and1", 1, "x", 's', "And"}, {"two cuts", 3, "x!x!x", 's', "And"},
	{"or", 2, "", '|', "Or"}, {"or3", 3, "", '|', "Or"}, {"or1", 1, "", '|', "Or"},
	{"list", 2, "", '%', "List"}, {"list0", 2, "", '=', "List0"},
	{"rep0", 1, "", '*', "Repeat0"}, {"rep1", 1, "", '+', "Repeat1"}, {"rep01", 1, "", '?', "Repeat01"},
	{"not", 1, "", '~', "Not"}, {"peek", 1, "", '@', "Peek"},
	{"action", 1, "", 'a', "Action"}, {"trans", 1, "", 'a', "Transaction"},
}

func (o treeOp) of(kids []tree) tree {
	var args []string
	n := &rnode{k: o.k, cut: -1}
	for _, t := range kids {
		n.kids = append(n.kids, t.n)
	}
	switch {
	case o.cuts != "":
		i := 0
		for _, c := range o.cuts {
			if c == '!' {
				args = append(args, "nil")
				if n.cut < 0 {
					n.cut = i
				}
				continue
			}
			args = append(args, kids[i].expr)
			i++
		}
	default:
		for _, t := range kids {
			args = append(args, t.expr)
		}
	}
	switch o.fn {
	case "Action":
		args = append(args, "act")
		n = n.kids[0]
	case "Transaction":
		args = append(args, "begin", "end")
		n = n.kids[0]
	}
	return tree{"tpl." + o.fn + "(" + strings.Join(args, ", ") + ")", n}
}

// rendTrees lists the trees: each operator over leaves, over each operator at
// each position, and over each operator over each operator.
func rendTrees(deep bool) []tree {
	next := 0
	leaf := func() tree { next++; return leafTree(next % 16) }
	leaves := func(o treeOp) []tree {
		var l []tree
		for i := 0; i < o.arity; i++ {
			l = append(l, leaf())
		}
		return l
	}
	var out []tree
	for i := 0; i < 16; i++ {
		out = append(out, leafTree(i))
	}
	for _, o := range treeOps {
		out = append(out, o.of(leaves(o)))
		for p := 0; p < o.arity; p++ {
			for _, q := range treeOps {
				l := leaves(o)
				l[p] = q.of(leaves(q))
				out = append(out, o.of(l))
				if !deep && (o.arity > 2 || q.arity > 2) {
					continue
				}
				for pq := 0; pq < q.arity; pq++ {
					for _, r := range treeOps {
						l := leaves(o)
						m := leaves(q)
						m[pq] = r.of(leaves(r))
						l[p] = q.of(m)
						out = append(out, o.of(l))
					}
				}
			}
		}
	}
	return out
}

// norm removes groups that mean nothing: of one operand, and of a sequence in
// a sequence or a choice in a choice.
func (n *rnode) norm() *rnode {
	kids := make([]*rnode, len(n.kids))
	for i, k := range n.kids {
		kids[i] = k.norm()
	}
	out := &rnode{k: n.k, name: n.name, raw: n.raw, cut: -1}
	switch n.k {
	case 's':
		// what is behind a cut up to the end of its sequence is a region 'c'
		add := func(to []*rnode, k *rnode, behind bool) []*rnode {
			switch {
			case k.k == 's' || k.k == 'c' && behind:
				for _, x := range k.kids {
					if x.k == 'c' && behind {
						to = append(to, x.kids...)
					} else {
						to = append(to, x)
					}
				}
				return to
			}
			return append(to, k)
		}
		region := &rnode{k: 'c', cut: -1}
		for i, k := range kids {
			if n.cut >= 0 && i >= n.cut {
				region.kids = add(region.kids, k, true)
			} else {
				out.kids = add(out.kids, k, false)
			}
		}
		if len(region.kids) > 0 {
			out.kids = append(out.kids, region)
		}
		if len(out.kids) == 1 && out.kids[0].k != 'c' {
			return out.kids[0]
		}
	case '|':
		for _, k := range kids {
			if k.k == '|' {
				out.kids = append(out.kids, k.kids...)
				continue
			}
			out.kids = append(out.kids, k)
		}
		if len(out.kids) == 1 {
			return out.kids[0]
		}
	default:
		out.kids = kids
	}
	return out
}

func (n *rnode) text() string {
	switch n.k {
	case 't':
		return n.raw
	case 'r':
		return n.name
	case '1':
		return "1"
	}
	var l []string
	for _, k := range n.kids {
		l = append(l, k.text())
	}
	return string(n.k) + "(" + strings.Join(l, " ") + ")"
}

func checkRender(c *Ctx) {
	code := c.Func("tpl", "Code")
	mc := c.Method("tpl", "Matcher", "Code")
	if code == nil || mc == nil {
		return
	}
	trees := rendTrees(c.Tier == "thorough")
	var b strings.Builder
	b.WriteString("package rend\n\nimport \"" + ai.RepoPrefix + "/tpl\"\n\nvar act func([]tpl.Token, tpl.Grammar)\nvar begin func() interface{}\nvar end func(interface{}, error)\n\n")
	for i, t := range trees {
		if i%7 == 3 {
			fmt.Fprintf(&b, "func T%d(t tpl.Tokener) string { m := &tpl.Matcher{Grammar: %s, Scanner: t}; return m.Code() }\n", i, t.expr)
		} else if i%7 == 5 {
			fmt.Fprintf(&b, "func T%d(t tpl.Tokener) string { return string(tpl.Grammar(%s).Marshal([]byte{}, t, 0)) }\n", i, t.expr)
		} else {
			fmt.Fprintf(&b, "func T%d(t tpl.Tokener) string { return tpl.Code(%s, t) }\n", i, t.expr)
		}
	}
	f, pk, info, err := typeCheck(c, c.importer(), "rend.go", b.String())
	if err != nil {
		c.Missing("the constructors of grammars: " + err.Error())
		return
	}
	sp := c.P.Prog.CreatePackage(pk, []*ast.File{f}, info, false)
	sp.Build()
	m := c.Machine()
	m.RuntimePanics = true
	m.Unroll = 1000
	tkT := c.Type("tpl", "Tokener")
	scanner := ai.NewSym("scanner", tkT)
	m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Method != nil && ci.Method.Name() == "Ttol" && ci.Recv == scanner {
			if k, ok := ai.IntVal(ci.Args[0]); ok {
				return []ai.Outcome{{St: st, Ret: ai.Str(rendLit(k))}}, true
			}
		}
		if ci.Fn != nil && ci.Fn.Pkg != nil {
			return textHook(st, ci)
		}
		return nil, false
	}
	bad := map[string]bool{}
	texts := map[string]bool{}
	for i, t := range trees {
		fn := sp.Func(fmt.Sprintf("T%d", i))
		m.Steps = 0
		st := c.P.Base("tpl")
		st.Assume(ai.App("isnil", ai.TBool, scanner), false)
		s, ok := rendText(m, fn, scanner, st)
		want := t.n.norm()
		if !ok {
			if len(m.Undecided) > 5 {
				break
			}
			continue
		}
		texts[s] = true
		g, err := readGrammar("doc = "+s+";", true)
		got := ""
		if err == nil {
			got = g.rules["doc"].norm().text()
		}
		if err == nil && got == want.text() {
			m.Check(st, true, code.Pos(), "")
			continue
		}
		key := want.shape()
		if bad[key] {
			continue
		}
		bad[key] = true
		pos := code.Pos()
		if mf := c.marshalOf(t.n); mf != nil {
			pos = mf.Pos()
		}
		if err != nil {
			m.Fail(st, pos, "the grammar %s is rendered as %q, which is not a rule text: %v", want.text(), s, err)
		} else {
			m.Fail(st, pos, "the grammar %s is rendered as %q, which reads as %s", want.text(), s, got)
		}
		if len(bad) > 12 {
			break
		}
	}
	c.Case("%d grammar trees, %d different texts", len(trees), len(texts))
	c.Absorb("the rendering of grammars", m)
	c.Rule("the functions that build and render the trees are interpreted with the constructors and Marshal methods of tpl; the text must read as the tree (a sequence in a sequence and a choice in a choice may be flat, groups of one operand and a cut at the end of a sequence may be gone, but a cut must end with its own sequence)")
}

// shape is a tree without its leaves.
func (n *rnode) shape() string {
	l := []string{}
	for _, k := range n.kids {
		if len(k.kids) > 0 {
			l = append(l, k.shape())
		}
	}
	sort.Strings(l)
	return string(n.k) + "(" + strings.Join(l, " ") + ")"
}

func rendText(m *ai.Machine, fn *ssa.Function, scanner *T, st *S) (string, bool) {
	outs := m.Run(fn, []*T{scanner}, nil, st)
	if len(outs) != 1 {
		m.Undecide("rendering a grammar has %d outcomes", len(outs))
		return "", false
	}
	o := outs[0]
	if o.Panic != nil {
		m.Fail(o.St, fn.Pos(), "rendering a grammar panics")
		return "", false
	}
	if s, ok := ai.StrVal(o.Ret); ok {
		return s, true
	}
	if s, ok := knownText(o.St, o.Ret); ok {
		return s, true
	}
	m.Undecide("the text rendered for a grammar is not known: %s", o.Ret)
	return "", false
}

// knownText reads a text whose bytes are known.
func knownText(st *S, t *T) (string, bool) {
	n, ok := ai.IntVal(st.Len(t))
	if !ok {
		return "", false
	}
	var out []byte
	for i := int64(0); i < n; i++ {
		b, ok := ai.IntVal(st.StrAt(t, ai.Int(i), types.Typ[types.Uint8]))
		if !ok {
			return "", false
		}
		out = append(out, byte(b))
	}
	return string(out), true
}

// marshalOf is the Marshal method of the type of a node.
func (c *Ctx) marshalOf(n *rnode) *ssa.Function {
	name := map[byte]string{'s': "grAnd", '|': "grOr", '*': "grRepeat0", '+': "grRepeat1", '?': "grRepeat01", '~': "grNot", '@': "grPeek", '%': "grList", '=': "grList"}[n.k]
	if name == "" {
		return nil
	}
	tn, _ := c.P.Pkg("tpl").Pkg.Scope().Lookup(name).(*types.TypeName)
	if tn == nil {
		return nil
	}
	return ai.MethodOf(c.P.Prog, types.NewPointer(tn.Type()), tn.Pkg(), "Marshal")
}

func init() {
	register("C15", "", checkRender)
}
