package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

const relConv = "tpl/cmd/tplconv"

func init() {
	register("X04", "main of tplconv is interpreted for lists of files, each output format with and without extension, and each failure of reading, compiling, matching, creating, making the template and writing, with the file system, templates and the extractor as events", checkConv)
}

// convCase is one command line.
type convCase struct {
	files []string
	o     string
	ext   string
	fail  string // the event that fails
	at    int    // the file at which it does
}

type convH struct {
	c    *Ctx
	m    *ai.Machine
	tc   convCase
	what string
	ends int
}

func (h *convH) errv(st *S, name string) *T {
	e := ai.NewSym(name, ai.TError)
	st.Assume(ai.App("isnil", ai.TBool, e), false)
	return e
}

// root is where the templates are.
const convHome = "/home/u"

func convTemplate(file string) string {
	return convHome + "/.tplconv/input/" + strings.TrimPrefix(path.Ext(file), ".") + ".tpl"
}

// at is the file that is converted, by the number of written ones.
func (h *convH) at(st *S) int {
	n, _ := ai.IntVal(st.Ghost["done"])
	return int(n)
}

// handle is a value that stands for what is known of a name.
func handle(kind, name string, t types.Type) *T {
	return ai.NamedSym("conv:"+kind+":"+name, t)
}

// about finds handles of a kind in a value.
func about(st *S, x *T, kind string, depth int) (out []string) {
	if x == nil || depth > 12 {
		return
	}
	if x.K == ai.KSym {
		if s := strings.SplitN(x.Name, "conv:"+kind+":", 2); len(s) == 2 {
			out = append(out, s[1])
		}
	}
	for _, a := range x.Args {
		for _, n := range about(st, a, kind, depth+1) {
			if !slices.Contains(out, n) {
				out = append(out, n)
			}
		}
	}
	return
}

func (h *convH) hook(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(r *T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Ret: r}}, true }
	fn := ci.Fn
	if fn == nil || fn.Pkg == nil {
		return nil, false
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil {
		return []ai.Outcome{{St: st}}, true // of the packages that are imported
	}
	pk, name := fn.Pkg.Pkg.Path(), fn.Name()
	res := func(i int) types.Type { return fn.Signature.Results().At(i).Type() }
	i := h.at(st)
	fails := func(ev string) bool { return h.tc.fail == ev && i == h.tc.at }
	pair := func(ev, kind, nm string) ([]ai.Outcome, bool) {
		if fails(ev) {
			return one(ai.Tuple(ai.Zero(res(0)), h.errv(st, ev)))
		}
		v := handle(kind, nm, res(0))
		if _, ok := res(0).Underlying().(*types.Pointer); ok {
			st.Assume(ai.App("isnil", ai.TBool, v), false)
		}
		return one(ai.Tuple(v, ai.Nil(ai.TError)))
	}
	cur := ""
	if i < len(h.tc.files) {
		cur = h.tc.files[i]
	}
	if rv := fn.Signature.Recv(); rv != nil {
		switch pk + "." + name {
		case "html/template.Execute", "html/template.ExecuteTemplate":
			doc := ci.Args[len(ci.Args)-1]
			t := about(st, ci.Args[0], "template", 0)
			h.m.Check(st, len(t) == 1 && t[0] == convHome+"/.tplconv/output/"+h.tc.o, ci.Pos(), "%s: the output template is %v", h.what, t)
			return h.write(st, ci, ci.Args[1], []*T{doc}, res)
		case "html/template.Funcs", "html/template.Option":
			return one(ci.Args[0])
		case "html/template.ParseFiles":
			l, ok := knownStrings(st, ci.Args[1])
			if !h.m.Check(st, ok && len(l) == 1, ci.Pos(), "%s: the output template is not known", h.what) {
				return nil, true
			}
			return pair("outtemplate", "template", l[0])
		case "os.Close", "os.Sync":
			return one(ai.Nil(ai.TError))
		case "os.WriteString", "os.Write":
			return h.write(st, ci, ci.Args[0], ci.Args[1:], res)
		case ai.RepoPrefix + "/" + relExtr + ".SafeParse":
			g, in := about(st, ci.Args[0], "extractor", 0), about(st, ci.Args[1], "content", 0)
			f, ok := ai.StrVal(ci.Args[2])
			h.m.Check(st, len(g) == 1 && g[0] == convTemplate(cur), ci.Pos(), "%s: the file %s is parsed with the grammar %v", h.what, cur, g)
			h.m.Check(st, len(in) == 1 && in[0] == cur, ci.Pos(), "%s: the content of %v is parsed instead of that of %s", h.what, in, cur)
			h.m.Check(st, ok && f == cur, ci.Pos(), "%s: the file %s is parsed under the name %s", h.what, cur, ci.Args[2])
			return pair("parse", "doc", cur)
		}
		return nil, false
	}
	switch pk {
	case "flag":
		switch name {
		case "Parse":
			return []ai.Outcome{{St: st}}, true
		case "NArg":
			return one(ai.Int(int64(len(h.tc.files))))
		case "Arg":
			k, ok := ai.IntVal(ci.Args[0])
			if ok && k >= 0 && int(k) < len(h.tc.files) {
				return one(ai.Str(h.tc.files[k]))
			}
			return one(ai.Str(""))
		case "Args":
			o := ai.NewObj("args", types.NewArray(ai.TString, int64(len(h.tc.files))))
			for k, f := range h.tc.files {
				st.Store(ai.IndexAddr(o, ai.Int(int64(k)), types.NewPointer(ai.TString)), ai.Str(f), ai.TString)
			}
			n := ai.Int(int64(len(h.tc.files)))
			return one(ai.SliceT(types.NewSlice(ai.TString), o, ai.Int(0), n, n))
		case "String", "StringVar":
			args := ci.Args
			var at *T
			if name == "StringVar" {
				at, args = args[0], args[1:]
			}
			v := args[1]
			if n, _ := ai.StrVal(args[0]); n == "o" {
				v = ai.Str(h.tc.o)
			} else if n == "ext" {
				v = ai.Str(h.tc.ext)
			}
			if at != nil {
				st.Store(at, v, ai.TString)
				return []ai.Outcome{{St: st}}, true
			}
			o := ai.NewObj("flag", ai.TString)
			st.Store(o, v, ai.TString)
			return one(o)
		case "Usage", "PrintDefaults":
			return []ai.Outcome{{St: st}}, true
		}
	case "os", "io/ioutil":
		switch name {
		case "Getenv":
			if s, ok := ai.StrVal(ci.Args[0]); ok && s == "HOME" {
				return one(ai.Str(convHome))
			}
		case "UserHomeDir":
			return one(ai.Tuple(ai.Str(convHome), ai.Nil(ai.TError)))
		case "ReadFile":
			f, ok := ai.StrVal(ci.Args[0])
			if !h.m.Check(st, ok && (f == cur || f == convTemplate(cur)), ci.Pos(), "%s: converting %s reads %s", h.what, cur, ci.Args[0]) {
				return nil, true
			}
			if f == cur {
				return pair("read", "content", f)
			}
			return pair("grammar", "content", f)
		case "Create", "OpenFile":
			f, ok := ai.StrVal(ci.Args[0])
			if !h.m.Check(st, ok && h.tc.ext != "" && f == cur+"."+h.tc.ext, ci.Pos(), "%s: converting %s creates %s", h.what, cur, ci.Args[0]) {
				return nil, true
			}
			return pair("create", "file", f)
		case "Exit":
			code, ok := ai.IntVal(ci.Args[0])
			h.ends++
			h.m.Check(st, ok && (code != 0) == (h.tc.fail != "" || len(h.tc.files) == 0), ci.Pos(), "%s: ends with the status %s", h.what, ci.Args[0])
			h.m.Check(st, h.tc.fail == "" || i == h.tc.at, ci.Pos(), "%s: ends after %d files", h.what, i)
			return nil, true
		}
	case "path", "path/filepath":
		switch name {
		case "Ext", "Base", "Dir", "Clean":
			if s, ok := ai.StrVal(ci.Args[0]); ok {
				return one(ai.Str(map[string]func(string) string{"Ext": path.Ext, "Dir": path.Dir, "Base": path.Base, "Clean": path.Clean}[name](s)))
			}
		case "Join":
			if l, ok := knownStrings(st, ci.Args[0]); ok {
				return one(ai.Str(path.Join(l...)))
			}
		}
	case ai.RepoPrefix + "/" + relExtr:
		if name == "New" {
			g := about(st, ci.Args[0], "content", 0)
			if !h.m.Check(st, len(g) == 1, ci.Pos(), "%s: the grammar is %s", h.what, ci.Args[0]) {
				return nil, true
			}
			return pair("compile", "extractor", g[0])
		}
	case "html/template":
		switch name {
		case "New":
			v := ai.NewSym("template", res(0))
			st.Assume(ai.App("isnil", ai.TBool, v), false)
			return one(v)
		case "Must":
			return nil, false
		}
	case "encoding/json":
		if name == "MarshalIndent" || name == "Marshal" {
			d := about(st, ci.Args[0], "doc", 0)
			if !h.m.Check(st, len(d) == 1, ci.Pos(), "%s: %s is rendered", h.what, ci.Args[0]) {
				return nil, true
			}
			return one(ai.Tuple(handle("doc", d[0], res(0)), ai.Nil(ai.TError)))
		}
	case "io", "fmt":
		switch name {
		case "WriteString":
			return h.write(st, ci, ci.Args[0], ci.Args[1:], res)
		case "Fprint", "Fprintf", "Fprintln":
			list := ci.Args[len(ci.Args)-1]
			k, _ := ai.IntVal(st.Len(list))
			arr, lo, _, _ := st.SliceParts(list)
			var vs []*T
			for i := int64(0); i < k; i++ {
				vs = append(vs, st.Load(ai.IndexAddr(arr, ai.AddK(lo, i), types.NewPointer(ai.TAny)), ai.TAny))
			}
			return h.write(st, ci, ci.Args[0], vs, res)
		}
	}
	return textHook(st, ci)
}

// write is output to a file, the standard output or the standard error.
func (h *convH) write(st *S, ci *ai.CallInfo, w *T, vals []*T, res func(int) types.Type) ([]ai.Outcome, bool) {
	i := h.at(st)
	result := func(err *T) ([]ai.Outcome, bool) {
		if ci.Sig.Results().Len() == 1 {
			return []ai.Outcome{{St: st, Ret: err}}, true
		}
		return []ai.Outcome{{St: st, Ret: ai.Tuple(ai.NewSym("n", ai.TInt), err)}}, true
	}
	for w != nil && w.K == ai.KIface {
		w = w.Args[0]
	}
	if h.std(st, "Stderr") == w {
		return result(ai.Nil(ai.TError))
	}
	var docs []string
	for _, v := range vals {
		for _, d := range about(st, v, "doc", 0) {
			if !slices.Contains(docs, d) {
				docs = append(docs, d)
			}
		}
	}
	if len(docs) == 0 { // a line break or the like
		return result(ai.Nil(ai.TError))
	}
	if !h.m.Check(st, i < len(h.tc.files), ci.Pos(), "%s: writes %v again", h.what, docs) {
		return nil, true
	}
	cur := h.tc.files[i]
	h.m.Check(st, len(docs) == 1 && docs[0] == cur, ci.Pos(), "%s: writes %v instead of the result for %s", h.what, docs, cur)
	to := "the standard output"
	if f := about(st, w, "file", 0); len(f) == 1 {
		to = f[0]
	} else if w != h.std(st, "Stdout") {
		to = w.String()
	}
	want := "the standard output"
	if h.tc.ext != "" {
		want = cur + "." + h.tc.ext
	}
	h.m.Check(st, to == want, ci.Pos(), "%s: the result for %s goes to %s", h.what, cur, to)
	html := ci.Fn.Pkg.Pkg.Path() == "html/template"
	h.m.Check(st, html == (path.Ext(h.tc.o) != ""), ci.Pos(), "%s: the form of the result is another one", h.what)
	if h.tc.fail == "write" && i == h.tc.at {
		return result(h.errv(st, "write"))
	}
	st.Ghost["done"] = ai.Int(int64(i + 1))
	return result(ai.Nil(ai.TError))
}

// std is a variable of package os.
func (h *convH) std(st *S, name string) *T {
	pk := h.c.P.Prog.ImportedPackage("os")
	if pk == nil {
		return nil
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return st.Load(ai.GlobalT(g), g.Type().(*types.Pointer).Elem())
}

func checkConv(c *Ctx) {
	c.Rule("tplconv converts its files in order: each is parsed by the extractor of the grammar of its extension and the result goes, once and in the form asked for, to the standard output or the file named like it with the extension asked for; the status is 0 then; if there is no file, or a file cannot be read, has no known grammar, does not match, or its result cannot be rendered or written, the status is not 0 and no further file is converted; no other file is created")
	main := c.Func(relConv, "main")
	if main == nil {
		return
	}
	h := &convH{c: c, m: c.Machine()}
	h.m.Hook = h.hook
	h.m.RuntimePanics = true
	n := 0
	run := func(tc convCase) {
		n++
		h.tc, h.ends = tc, 0
		h.what = fmt.Sprintf("tplconv -o %s -ext %q %s", tc.o, tc.ext, strings.Join(tc.files, " "))
		if tc.fail != "" {
			h.what += fmt.Sprintf(" with a failure to %s file %d", tc.fail, tc.at+1)
		}
		h.m.Steps = 0
		st := c.P.Base(relConv)
		st.Ghost["done"] = ai.Int(0)
		inits := h.m.Run(main.Pkg.Func("init"), nil, nil, st)
		if len(inits) != 1 || inits[0].Panic != nil {
			h.m.Undecide("initialisation has %d outcomes", len(inits))
			return
		}
		st = inits[0].St
		for _, s := range []string{"Stdout", "Stderr"} {
			if v := h.std(st, s); v != nil {
				st.Assume(ai.App("isnil", ai.TBool, v), false)
			}
		}
		outs := h.m.Run(main, nil, nil, st)
		for _, o := range outs {
			if !h.m.Check(o.St, o.Panic == nil, main.Pos(), "%s: panics (%v)", h.what, o.Panic) {
				continue
			}
			h.m.Check(o.St, tc.fail == "" && len(tc.files) > 0, main.Pos(), "%s: ends with the status 0", h.what)
			h.m.Check(o.St, h.at(o.St) == len(tc.files), main.Pos(), "%s: %d of %d files are converted", h.what, h.at(o.St), len(tc.files))
		}
		h.m.Check(nil, len(outs)+h.ends > 0, token.NoPos, "%s: does not end", h.what)
	}
	lists := [][]string{{"a.conf"}, {"dir/b.txt", "a.conf"}, {"x.y.log", "a.conf", "c.txt"}}
	for _, ext := range []string{"", "out"} {
		run(convCase{nil, "json", ext, "", 0})
		for _, o := range []string{"json", "page.html", "page.htm"} {
			for _, l := range lists {
				run(convCase{l, o, ext, "", 0})
				evs := []string{"read", "grammar", "compile", "parse", "write"}
				if ext != "" {
					evs = append(evs, "create")
				}
				if o != "json" {
					evs = append(evs, "outtemplate")
				}
				for _, ev := range evs {
					for at := range l {
						run(convCase{l, o, ext, ev, at})
					}
				}
			}
		}
		for _, o := range []string{"xml", "page.txt"} {
			run(convCase{lists[1], o, ext, "render", 0})
		}
		run(convCase{[]string{"noext", "a.conf"}, "json", ext, "recognise", 0})
		run(convCase{[]string{"a.conf", "noext"}, "json", ext, "recognise", 1})
	}
	c.Case("%d command lines", n)
	c.Absorb("main", h.m)
}
