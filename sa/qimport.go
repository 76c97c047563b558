package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	register("Q08", "Import is interpreted on tables whose names are undefined, placeholders or defined, and the table of definitions is compared before and after", checkImport)
}

func checkImport(c *Ctx) {
	c.Rule("Import makes a table the module of its name, or each entry of a table without a module name a global definition; a name that is already defined, other than by a placeholder, is never given another value: Import panics; no other definition changes")
	fn := c.Func(relSpec, "Import")
	if fn == nil {
		return
	}
	base := qBase(c)
	table, mt := specTable(c, base)
	// what a name can be bound to
	type def struct {
		what string
		v    *T
		old  bool // a definition that has to stay
	}
	defs := []def{{"undefined", nil, false}}
	isPh := map[*ssa.Function]bool{}
	// the table starts with placeholders
	if ini := c.P.Pkg(relSpec).Func("init"); ini != nil {
		for _, b := range ini.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mi, ok := mu.Value.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if f, ok := mi.X.(*ssa.Function); ok && !isPh[f] && types.Identical(mu.Map.Type(), mt) {
					isPh[f] = true
					defs = append(defs, def{"the placeholder " + f.Name(), ai.Iface(f.Signature, ai.FuncT(f), ai.TAny), false})
				}
			}
		}
	}
	if len(defs) < 2 {
		c.Missing("placeholders of operators")
		return
	}
	names := map[*T]string{}
	var all []string
	for a := range base.Heap {
		if a.K == ai.KMapCell && a.Args[0] == table {
			if k, ok := ai.StrVal(a.Args[1]); ok {
				names[a] = k
				all = append(all, k)
			}
		}
	}
	sort.Strings(all)
	var some *T
	for _, k := range all {
		if _, v := base.MapHas(table, ai.Str(k), mt); v != nil && v.K == ai.KIface && v.Args[0].Fn != nil && !isPh[v.Args[0].Fn] {
			some = v
			break
		}
	}
	if some == nil {
		c.Missing("a builtin function")
		return
	}
	tabIface := ai.Iface(mt, ai.NewObj("module", mt), ai.TAny)
	defs = append(defs,
		def{"a function", some, true},
		def{"nil", ai.Nil(ai.TAny), true},
		def{"a number", ai.Iface(ai.TInt, ai.NewSym("n", ai.TInt), ai.TAny), true},
		def{"a text", ai.Iface(ai.TString, ai.NewSym("s", ai.TString), ai.TAny), true},
		def{"a module", tabIface, true})

	globals := c.P.Pkg(relSpec).Members
	cases := 0
	run := func(what string, mod string, entry map[string]def, safe int) {
		cases++
		st := base.Clone()
		m := c.Machine()
		m.RuntimePanics = true
		var ns []string
		for n := range entry {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		tab := ai.NewObj("table", mt)
		news := map[string]*T{}
		var inits []*T
		put := ns
		if mod != "" {
			put = []string{"entry"}
		}
		for _, n := range put {
			v := ai.NewSym("new_"+n, ai.TAny)
			st.MapStore(tab, ai.Str(n), v, mt)
			news[n] = v
		}
		if mod != "" {
			news[mod] = ai.Iface(mt, tab, ai.TAny)
		}
		for _, n := range ns {
			if d := entry[n]; d.v == nil {
				st.SetAbsent(table, ai.Str(n), mt)
			} else {
				st.MapStore(table, ai.Str(n), d.v, mt)
			}
		}
		if g, ok := globals["SafeMode"].(*ssa.Global); ok {
			st.Store(ai.GlobalT(g), ai.Bool(safe > 0), types.Typ[types.Bool])
		} else {
			c.Missing("SafeMode")
		}
		if safe == 2 {
			sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "", mt), types.NewParam(0, nil, "", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "", types.NewSlice(ai.TAny))), types.NewTuple(types.NewParam(0, nil, "", ai.TAny)), true))), nil, false)
			f := ai.NewSym("initSafe", sig)
			st.Assume(ai.App("isnil", ai.TBool, f), false)
			st.MapStore(tab, ai.Str("_initSafe"), ai.Iface(sig, f, ai.TAny), mt)
			st.SetAbsent(table, ai.Str("_initSafe"), mt)
			m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.FnTerm != f {
					return nil, false
				}
				inits = append(inits, ci.Args...)
				st = st.Clone()
				for n := range news {
					if n != mod || mod == "" {
						st.MapStore(tab, ai.Str(n), ai.Iface(ai.TString, ai.Str("safe "+n), ai.TAny), mt)
					}
				}
				return []ai.Outcome{{St: st}}, true
			}
			for n := range news {
				if mod == "" {
					news[n] = ai.Iface(ai.TString, ai.Str("safe "+n), ai.TAny)
				}
			}
		}
		clash := false
		for _, n := range ns {
			clash = clash || entry[n].old
		}
		n := 0
		for _, o := range m.Run(fn, []*T{ai.Str(mod), tab}, nil, st) {
			n++
			s := o.St
			m.Check(s, (o.Panic != nil) == clash, fn.Pos(), "%s: panics: %v", what, o.Panic != nil)
			for _, nm := range ns {
				d := entry[nm]
				has, v := s.MapHas(table, ai.Str(nm), mt)
				switch {
				case d.old:
					m.Check(s, has > 0 && v != nil && s.Same(v, d.v), fn.Pos(), "%s: the definition of %s is replaced by %v", what, nm, v)
				case !clash:
					m.Check(s, has > 0 && v != nil && s.Same(v, news[nm]), fn.Pos(), "%s: %s is defined as %v (%d)", what, nm, v, has)
				}
			}
			bad := ""
			for a := range s.Heap {
				if a.K != ai.KMapCell || a.Args[0] != table {
					continue
				}
				k, ok := ai.StrVal(a.Args[1])
				if !ok {
					bad = a.String()
					continue
				}
				if _, given := entry[k]; given || k == "_initSafe" {
					continue
				}
				h1, v1 := base.MapHas(table, ai.Str(k), mt)
				h2, v2 := s.MapHas(table, ai.Str(k), mt)
				if h1 != h2 || h1 > 0 && !s.Same(v1, v2) {
					bad = k
				}
			}
			for _, k := range all {
				if _, given := entry[k]; given {
					continue
				}
				h2, v2 := s.MapHas(table, ai.Str(k), mt)
				if _, v1 := base.MapHas(table, ai.Str(k), mt); h2 <= 0 || !s.Same(v1, v2) {
					bad = k
				}
			}
			m.Check(s, bad == "", fn.Pos(), "%s: the definition of another name changes: %s", what, bad)
			for nm, g := range globals {
				if g, ok := g.(*ssa.Global); ok && nm != "SafeMode" {
					t := g.Type().(*types.Pointer).Elem()
					m.Check(s, s.Same(s.Load(ai.GlobalT(g), t), st.Load(ai.GlobalT(g), t)), fn.Pos(), "%s: the variable %s changes", what, nm)
				}
			}
		}
		m.Check(st, n > 0, fn.Pos(), "%s: never ends", what)
		if safe == 2 {
			m.Check(st, len(inits) > 0 && inits[0] == tab, token.NoPos, "%s: _initSafe is not called with the table", what)
		}
		c.Absorb("Import", m)
	}
	for _, a := range defs {
		for safe := 0; safe <= 2; safe++ {
			run(desc("a table with a name that is %s (safe: %d)", a.what, safe), "", map[string]def{"name 1": a}, safe)
			if a.v != nil && !a.old {
				continue // no module has the name of an operator
			}
			run(desc("a module whose name is %s (safe: %d)", a.what, safe), "name 1", map[string]def{"name 1": a}, safe)
		}
		for _, b := range defs {
			run(desc("a table with names that are %s and %s", a.what, b.what), "", map[string]def{"name 1": a, "name 2": b}, 0)
		}
	}
	c.Case("%d cases with %d kinds of definitions", cases, len(defs))
}
