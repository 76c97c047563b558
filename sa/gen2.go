package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Property G02: what the tool tplgen does with the Go files of a directory.
// main is interpreted with the flags, the parsed directory (mirrored from
// parsing sample files here) and every file operation as events.

const relTplgen = "tpl/cmd/tplgen"

// mirror copies values of this process (syntax trees) into a state.
type mirror struct {
	c    *Ctx
	imp  mapImporter
	st   *S
	done map[uintptr]*T
}

func (m *mirror) typ(t reflect.Type) types.Type {
	if t.PkgPath() != "" {
		if p := m.imp[t.PkgPath()]; p != nil {
			if o := p.Scope().Lookup(t.Name()); o != nil {
				return o.Type()
			}
		}
		panic("no type for " + t.String())
	}
	switch t.Kind() {
	case reflect.Ptr:
		return types.NewPointer(m.typ(t.Elem()))
	case reflect.Slice:
		return types.NewSlice(m.typ(t.Elem()))
	case reflect.Map:
		return types.NewMap(m.typ(t.Key()), m.typ(t.Elem()))
	case reflect.Interface:
		return ai.TAny
	case reflect.String:
		return types.Typ[types.String]
	case reflect.Int:
		return types.Typ[types.Int]
	case reflect.Bool:
		return types.Typ[types.Bool]
	}
	panic("no type for " + t.String())
}

func (m *mirror) val(v reflect.Value) *T {
	t := m.typ(v.Type())
	switch v.Kind() {
	case reflect.String:
		return ai.ConstT(constant.MakeString(v.String()), t)
	case reflect.Int:
		return ai.ConstT(constant.MakeInt64(v.Int()), t)
	case reflect.Bool:
		return ai.Bool(v.Bool())
	case reflect.Interface:
		if v.IsNil() {
			return ai.Nil(t)
		}
		x := m.val(v.Elem())
		return ai.Iface(m.typ(v.Elem().Type()), x, t)
	case reflect.Ptr:
		if v.IsNil() {
			return ai.Nil(t)
		}
		if o := m.done[v.Pointer()]; o != nil {
			return o
		}
		e := t.(*types.Pointer).Elem()
		o := ai.NewObj(v.Elem().Type().Name(), e)
		m.done[v.Pointer()] = o
		su := e.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			fv := v.Elem().FieldByName(f.Name())
			var x *T
			switch f.Name() {
			case "Obj", "Scope", "Unresolved", "Doc", "Comment", "Comments", "Imports":
				x = ai.Zero(f.Type())
			default:
				if !f.Exported() {
					x = ai.Zero(f.Type())
				} else {
					x = m.val(fv)
				}
			}
			m.st.Store(ai.FieldAddr(o, i, types.NewPointer(f.Type())), x, f.Type())
		}
		return o
	case reflect.Slice:
		if v.IsNil() {
			return ai.Nil(t)
		}
		et := t.(*types.Slice).Elem()
		at := types.NewArray(et, int64(v.Len()))
		arr := ai.NewObj("elems", at)
		m.st.Store(arr, ai.Zero(at), at)
		for i := 0; i < v.Len(); i++ {
			m.st.Store(ai.IndexAddr(arr, ai.Int(int64(i)), types.NewPointer(et)), m.val(v.Index(i)), et)
		}
		n := ai.Int(int64(v.Len()))
		return ai.SliceT(t, arr, ai.Int(0), n, n)
	case reflect.Map:
		o := ai.NewObj("map", t)
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			m.st.MapStore(o, m.val(k), m.val(v.MapIndex(k)), t)
		}
		return o
	}
	panic("no mirror for " + v.Type().String())
}

// toolCase is one directory.
type toolCase struct {
	files []string
	want  string // the text the generator gets; "" when nothing is found
	pkg   string
	fail  string // the event that fails
	inter bool
}

type toolH struct {
	c    *Ctx
	m    *ai.Machine
	imp  mapImporter
	code string
	tmpl map[string]bool // names of template files used

	tc    toolCase
	label string
	ends  int
}

func (h *toolH) errv(st *S, name string) *T {
	e := ai.NewSym(name, ai.TError)
	st.Assume(ai.App("isnil", ai.TBool, e), false)
	return e
}

func (h *toolH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(r *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: r}}, true }
	fn := ci.Fn
	if fn == nil || fn.Pkg == nil {
		return nil, false
	}
	pk, name := fn.Pkg.Pkg.Path(), fn.Name()
	fails := func(ev string) bool { return h.tc.fail == ev }
	res := func(i int) types.Type { return fn.Signature.Results().At(i).Type() }
	if rv := fn.Signature.Recv(); rv != nil {
		switch pk + "." + name {
		case "text/template.Execute", "text/template.ExecuteTemplate":
			h.execute(st, ci)
			if fails("execute") {
				return one(h.errv(st, "execute"))
			}
			return one(ai.Nil(ai.TError))
		case "os.Close":
			return one(ai.Nil(ai.TError))
		}
		return nil, false
	}
	ptrTo := func(v *T, t types.Type) *T {
		o := ai.NewObj("flag", t)
		st.Store(o, v, t)
		return o
	}
	switch pk {
	case "flag":
		switch name {
		case "String", "StringVar", "Bool", "BoolVar":
			args := ci.Args
			var at *T
			if strings.HasSuffix(name, "Var") {
				at, args = args[0], args[1:]
			}
			n, _ := ai.StrVal(args[0])
			var v *T
			switch n {
			case "g":
				v = ai.Str("grammar")
			case "f":
				v = ai.Str("out.go")
			case "i":
				v = ai.Bool(h.tc.inter)
			default:
				v = args[1]
			}
			t := ai.TString
			if strings.HasPrefix(name, "Bool") {
				t = ai.TBool
			}
			if at != nil {
				st.Store(at, v, t)
				return []ai.Outcome{{St: st}}, true
			}
			return one(ptrTo(v, t))
		case "Parse":
			return []ai.Outcome{{St: st}}, true
		}
	case "os":
		switch name {
		case "Remove":
			h.output(st, ci)
			return one(ai.NewSym("removed", ai.TError))
		case "OpenFile", "Create":
			h.output(st, ci)
			if fails("create") {
				return one(ai.Tuple(ai.Nil(res(0)), h.errv(st, "create")))
			}
			if name == "OpenFile" {
				fl, ok := ai.IntVal(ci.Args[1])
				h.m.Check(st, ok && fl&3 != 0 && fl&int64(os.O_CREATE) != 0, ci.Pos(), "the output file is not opened to be written")
				h.m.Check(st, fl&int64(os.O_TRUNC) != 0 || gTrue(st, "removed"), ci.Pos(), "an old output file is neither removed nor truncated")
			}
			f := ai.NewObj("outfile", ai.TInt)
			st.Ghost["file"] = f
			return one(ai.Tuple(f, ai.Nil(ai.TError)))
		case "Exit":
			code, ok := ai.IntVal(ci.Args[0])
			h.ends++
			h.m.Check(st, ok && code != 0 && (h.tc.want == "" || h.tc.fail != ""), ci.Pos(), "%s: the tool gives up", h.label)
			return nil, true
		}
	case "runtime":
		if name == "Caller" {
			return one(ai.Tuple(ai.NewSym("pc", res(0)), ai.Str("/src/tplgen/main.go"), ai.NewSym("ln", res(2)), ai.Bool(true)))
		}
	case "path", "path/filepath":
		switch name {
		case "Dir", "Base", "Clean":
			if s, ok := ai.StrVal(ci.Args[0]); ok {
				return one(ai.Str(map[string]func(string) string{"Dir": path.Dir, "Base": path.Base, "Clean": path.Clean}[name](s)))
			}
		case "Join":
			if l, ok := knownStrings(st, ci.Args[0]); ok {
				return one(ai.Str(path.Join(l...)))
			}
		}
	case "go/token":
		if name == "NewFileSet" {
			return one(ai.NewObj("fset", res(0).(*types.Pointer).Elem()))
		}
	case "go/parser":
		if name == "ParseDir" {
			d, ok := ai.StrVal(ci.Args[1])
			h.m.Check(st, ok && path.Clean(d) == ".", ci.Pos(), "the tool does not read the current directory")
			mr := &mirror{c: h.c, imp: h.imp, st: st, done: map[uintptr]*T{}}
			pkgs := map[string]*ast.Package{}
			fset := token.NewFileSet()
			for i, src := range h.tc.files {
				fname := fmt.Sprintf("f%d.go", i)
				f, err := parser.ParseFile(fset, fname, src, parser.SkipObjectResolution)
				if err != nil {
					panic(err)
				}
				p := pkgs[f.Name.Name]
				if p == nil {
					p = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
					pkgs[f.Name.Name] = p
				}
				p.Files[fname] = f
			}
			r := mr.val(reflect.ValueOf(pkgs))
			if fails("parse") {
				return one(ai.Tuple(r, h.errv(st, "parse")))
			}
			return one(ai.Tuple(r, ai.Nil(ai.TError)))
		}
	case "text/template":
		switch name {
		case "ParseFiles":
			l, ok := knownStrings(st, ci.Args[0])
			if !h.m.Check(st, ok && len(l) == 1 && path.Dir(l[0]) == "/src/tplgen", ci.Pos(), "the template is not read from beside the tool") {
				return nil, true
			}
			h.tmpl[path.Base(l[0])] = true
			if fails("template") {
				return one(ai.Tuple(ai.Nil(res(0)), h.errv(st, "template")))
			}
			return one(ai.Tuple(ai.NewObj("template", res(0).(*types.Pointer).Elem()), ai.Nil(ai.TError)))
		}
	case ai.RepoPrefix + "/" + relGen:
		if name == "GenStaticCode" {
			s, ok := ai.StrVal(ci.Args[0])
			h.m.Check(st, ok && s == h.tc.want && s != "", ci.Pos(), "%s: code is generated for the text %s", h.label, ci.Args[0])
			if fails("generate") {
				return one(ai.Tuple(ai.Str(""), h.errv(st, "generate")))
			}
			return one(ai.Tuple(ai.Str(h.code), ai.Nil(ai.TError)))
		}
	case "strconv":
		if name == "Unquote" {
			if s, ok := ai.StrVal(ci.Args[0]); ok {
				v, err := unquote(s)
				if err != nil {
					return one(ai.Tuple(ai.Str(""), h.errv(st, "unquote")))
				}
				return one(ai.Tuple(ai.Str(v), ai.Nil(ai.TError)))
			}
		}
	case "fmt":
		switch name {
		case "Fprintln", "Fprintf", "Fprint", "Println", "Printf", "Print":
			return one(ai.Tuple(ai.NewSym("n", ai.TInt), ai.Nil(ai.TError)))
		}
	}
	return textHook(st, ci)
}

func (h *toolH) output(st *S, ci *ai.CallInfo) {
	s, ok := ai.StrVal(ci.Args[0])
	h.m.Check(st, ok && s == "out.go", ci.Pos(), "the tool touches a file that is not its output (%s)", ci.Args[0])
	if ci.Fn.Name() == "Remove" {
		st.Ghost["removed"] = ai.Bool(true)
	}
}

// execute judges the data the template gets and renders it.
func (h *toolH) execute(st *S, ci *ai.CallInfo) {
	pos := ci.Pos()
	n := len(ci.Args)
	w, data := ci.Args[1], ci.Args[n-1]
	if w.K == ai.KIface {
		w = w.Args[0]
	}
	h.m.Check(st, w == st.Ghost["file"], pos, "the code is not written to the output file")
	if !h.m.Check(st, h.tc.want != "" && (h.tc.fail == "" || h.tc.fail == "execute"), pos, "%s: the tool writes code", h.label) {
		return
	}
	st.Ghost["written"] = ai.Bool(true)
	if data.K == ai.KIface {
		data = data.Args[0]
	}
	vals := map[string]interface{}{}
	for a, v := range st.Heap {
		if a.K == ai.KMapCell && a.Args[0] == data && v != ai.Absent() {
			k, _ := ai.StrVal(a.Args[1])
			if v.K == ai.KIface {
				v = v.Args[0]
			}
			if s, ok := ai.StrVal(v); ok {
				vals[k] = s
			} else if e := st.Eval(v); e != 0 {
				vals[k] = e > 0
			}
		}
	}
	if len(h.tmpl) != 1 {
		h.m.Undecide("the template is not known")
		return
	}
	for f := range h.tmpl {
		file := filepath.Join(repoDir, relTplgen, f)
		t, err := template.ParseFiles(file)
		if !h.m.Check(st, err == nil, pos, "the template %s cannot be read: %v", f, err) {
			return
		}
		var buf bytes.Buffer
		err = t.Execute(&buf, vals)
		if !h.m.Check(st, err == nil, pos, "the template %s cannot be rendered: %v", f, err) {
			return
		}
		_, p, _, err := typeCheck(h.c, h.imp, "static_compiler.go", buf.String())
		if !h.m.Check(st, err == nil, pos, "the file the tool writes does not compile (-i %v): %v", h.tc.inter, err) {
			return
		}
		h.m.Check(st, p.Name() == h.tc.pkg, pos, "%s: the file belongs to package %s instead of %s", h.label, p.Name(), h.tc.pkg)
		h.m.Check(st, strings.Contains(buf.String(), h.code), pos, "the file does not have the generated code")
		h.m.Check(st, (p.Scope().Lookup("NewStaticInterpreter") != nil) == h.tc.inter, pos, "the file has an interpreter exactly when it is not asked for")
	}
}

func unquote(s string) (string, error) {
	v := constant.MakeFromLiteral(s, token.STRING, 0)
	if v.Kind() != constant.String {
		return "", fmt.Errorf("no string")
	}
	return constant.StringVal(v), nil
}

func (h *toolH) run(fn *ssa.Function, tc toolCase) {
	h.tc = tc
	h.label = "files " + brief(fmt.Sprintf("%q", tc.files))
	if tc.fail != "" {
		h.label += " with a failure to " + tc.fail
	}
	h.m.Steps = 0
	h.ends = 0
	st := h.c.P.Base(relTplgen)
	st.Ghost["written"], st.Ghost["removed"] = ai.Bool(false), ai.Bool(false)
	outs := h.m.Run(fn, nil, nil, st)
	for _, o := range outs {
		if !h.m.Check(o.St, o.Panic == nil, fn.Pos(), "%s: the tool panics", h.label) {
			continue
		}
		h.m.Check(o.St, gTrue(o.St, "written"), fn.Pos(), "%s: the tool ends without code and without a failure", h.label)
	}
	h.m.Check(nil, len(outs)+h.ends > 0, fn.Pos(), "%s: the tool does not end", h.label)
}

func checkTplgen(c *Ctx) {
	fn := c.Func(relTplgen, "main")
	gen := c.Func(relGen, "GenStaticCode")
	if fn == nil || gen == nil {
		return
	}
	g := &genH{c: c, b: newBuilder(c), m: c.Machine(), tokT: c.Type("tpl", "Token")}
	g.m.Hook, g.m.Unroll = g.hook, 4000
	code, ok := g.generate(gen, "v = b \"if\" 'x'\nb = INT/mark\ndoc = v b\n")
	if !ok || code == "" {
		code, ok = g.generate(gen, "doc = INT\n")
	}
	if !ok || code == "" {
		c.Missing("generated code to put into the template")
		return
	}
	m := c.Machine()
	m.RuntimePanics = true
	m.Unroll = 4000
	h := &toolH{c: c, m: m, imp: c.importer(), code: code, tmpl: map[string]bool{}}
	m.Hook = h.hook
	yes := func(want string, files ...string) toolCase {
		f, err := parser.ParseFile(token.NewFileSet(), "", files[0], parser.PackageClauseOnly)
		if err != nil {
			panic(err)
		}
		return toolCase{files: files, want: want, pkg: f.Name.Name}
	}
	no := func(files ...string) toolCase { return toolCase{files: files} }
	const p = "package p\n"
	q := "`doc = INT\n`"
	text := "doc = INT\n"
	cases := []toolCase{
		yes(text, p+"const grammar = "+q),
		yes(text, p+"var grammar = "+q),
		yes(text, p+`const grammar = "doc = INT\n"`),
		yes("doc = \"x\" '\\''\n", p+"var grammar = \"doc = \\\"x\\\" '\\\\''\\n\""),
		yes(text, p+"var a, grammar, b = 1, "+q+", 2"),
		yes(text, p+"const (\n a = iota\n other = \"no\"\n grammar = "+q+"\n)\n"),
		yes(text, p+"var grammar string = "+q),
		yes(text, p+"func f() { grammar := "+q+"; _ = grammar }"),
		yes(text, p+"func f() { var x int; grammar := "+q+"; _, _ = x, grammar }"),
		yes(text, p+"func f() { var grammar string; grammar = "+q+"; _ = grammar }"),
		yes(text, p+"func f() { const grammar = "+q+" }"),
		yes(text, p+"func f() { a, grammar := 1, "+q+"; _, _ = a, grammar }"),
		yes(text, p+"type T int\nfunc (t T) f() { t = 1; grammar := "+q+"; _ = grammar }"),
		yes(text, p+"import \"fmt\"\ntype T int\nfunc ext()\nvar x, y int\nfunc f() { fmt.Println() }\nvar grammar = "+q),
		yes(text, p+"func f() {}\nfunc h() { x.y, a[0] = 1, 2; go f(); if true { }; for { }; grammar := "+q+" }"),
		yes(text, "package main\nvar grammar = "+q),
		yes(text, p+"var x = 1\n", p+"var y = 2\n", p+"var grammar = "+q),
		yes(text, p+"var grammar string\nfunc f() { grammar = "+q+" }"),
		yes(text, p+"var grammar = 1\nfunc f() { grammar := "+q+" }"),
		yes(text, p+"var a, grammar = g()\nfunc f() { grammar := "+q+" }"),
		yes(text, p+"var grammar2, grammarx = \"no\", \"no\"\nvar Grammar = \"no\"\nvar grammar = "+q),
		yes(text, p+"var a, b = \"no\", \"no\"\nvar grammar, c = "+q+", \"no\"\n"),
		yes(text, p+"var wording, gramme = \"no\", \"no\"\nfunc f() { wording = \"no\"; gram = \"no\"; a, grammarr := 1, \"no\"; grammar := "+q+" }"),
		yes(text, p+"var grammar, _ = "+q+", \"no\"\nvar _, x = \"no\", \"no\"\n"),
		yes(text, p+"var _, x = \"no\", \"no\"\nfunc f() { _ = \"no\"; grammar, _ := "+q+", \"no\" }"),
		yes(text, p+"func f() { x.grammar = \"no\"; a, grammar = \"no\", "+q+" }"),
		no(),
		no(p),
		no(p + "var grammar string"),
		no(p + "const (\n a = iota\n grammar\n)\n"),
		no(p + "var a, grammar = g()"),
		no(p + "var a, b, grammar = g()"),
		no(p + "func f() { a, grammar := g() }"),
		no(p + "func f() { a, b, grammar = g() }"),
		no(p + "func f()\nfunc (t T) g()\n"),
		no(p + "func f() { }"),
		no(p + "var grammar = 1"),
		no(p + "var grammar = 12"),
		no(p + "var grammar = 'c'"),
		no(p + "var grammar = 1.5"),
		no(p + "var grammar = 2i"),
		no(p + "func f() { grammar := 1 }"),
		no(p + "func f() { grammar := 'c' }"),
		no(p + "var grammar = g()"),
		no(p + "func f() { x.grammar = \"no\"; y[grammar] = \"no\" }"),
		no(p + "var other = \"no\"\nfunc f() { other := \"no\"; var o2 = \"no\" }\ntype grammar struct { grammar string }"),
		no(p + "var other = grammar"),
	}
	var ok2 []toolCase
	for _, tc := range cases {
		bad := false
		for _, f := range tc.files {
			if _, err := parser.ParseFile(token.NewFileSet(), "", f, parser.SkipObjectResolution); err != nil {
				bad = true
			}
		}
		if !bad {
			ok2 = append(ok2, tc)
		}
	}
	for _, f := range []string{"parse", "generate", "create", "template"} {
		tc := yes(text, p+"var grammar = "+q)
		tc.fail = f
		ok2 = append(ok2, tc)
	}
	for _, tc := range ok2 {
		h.run(fn, tc)
		if tc.want != "" && tc.fail == "" {
			tc.inter = true
			h.run(fn, tc)
		}
	}
	c.Case("%d directories", len(ok2))
	c.Absorb("tplgen", h.m)
	c.Rule("main is interpreted on the syntax trees of each directory: the generator gets the text of the string literal that the named constant or variable has, the rendered file type-checks, and nothing panics")
}

func init() {
	register("G02", "", checkTplgen)
}
