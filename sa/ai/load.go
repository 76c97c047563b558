package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code base.
type Program struct {
	Prog *ssa.Program
	Pkgs []*packages.Package
	SSA  []*ssa.Package
	ByID map[string]*ssa.Package
	base *State
	Init *Machine
}

// LoadProgram type-checks dir/... and builds its SSA form.
func LoadProgram(dir string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	findReflect(pkgs)
	prog, ssas := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	r := &Program{Prog: prog, Pkgs: pkgs, ByID: map[string]*ssa.Package{}}
	for i, p := range ssas {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		r.SSA = append(r.SSA, p)
		r.ByID[p.Pkg.Path()] = p
	}
	return r, nil
}

// Pkg returns a package by path below the module ("tpl", "tpl/qlang/cl").
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ByID[RepoPrefix]
	}
	return p.ByID[RepoPrefix+"/"+rel]
}

// Func returns a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// Type returns a named type.
func (p *Program) Type(rel, name string) types.Type {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// Method returns a method of *T (or T).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	t := p.Type(rel, typ)
	if t == nil {
		return nil
	}
	pk := p.Pkg(rel).Pkg
	if f := MethodOf(p.Prog, types.NewPointer(t), pk, name); f != nil {
		return f
	}
	return MethodOf(p.Prog, t, pk, name)
}

// AllFuncs returns every function of the module with a body, sorted.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Pkg != nil && InRepo(f.Pkg.Pkg.Path()) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// topo orders the module packages by imports.
func (p *Program) topo() []*ssa.Package {
	seen := map[string]bool{}
	var out []*ssa.Package
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t.Path()] {
			return
		}
		seen[t.Path()] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if s := p.ByID[t.Path()]; s != nil {
			out = append(out, s)
		}
	}
	var paths []string
	for k := range p.ByID {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(p.ByID[k].Pkg)
	}
	return out
}

// BaseState is the state after package initialisation.
func (p *Program) fullBase() *State {
	if p.base == nil {
		p.base = p.runInit()
	}
	return p.base.Clone()
}

func (p *Program) runInit() *State {
	st := NewState()
	m := NewMachine(p.Prog)
	m.Unroll = 2000
	p.Init = m
	pkgs := p.topo()
	for _, pk := range pkgs {
		for _, mem := range pk.Members {
			g, ok := mem.(*ssa.Global)
			if !ok {
				continue
			}
			zeroGlobal(st, GlobalT(g), deref(g.Type()))
		}
	}
	m.Hook = func(m *Machine, s *State, c *CallInfo) ([]Outcome, bool) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && c.Fn.Synthetic != "" {
			return []Outcome{{St: s}}, true // imports are initialised in order
		}
		return nil, false
	}
	for _, pk := range pkgs {
		if pk.Pkg.Name() == "main" {
			continue
		}
		ini := pk.Func("init")
		outs := m.Run(ini, nil, nil, st)
		n := 0
		for _, o := range outs {
			if o.Panic == nil {
				st = o.St
				n++
			}
		}
		if n != 1 {
			m.Undecide("initialisation of %s has %d outcomes", pk.Pkg.Path(), n)
		}
	}
	return gc(st)
}

// gc keeps the cells reachable from globals and forgets path facts.
func gc(st *State) *State {
	out := NewState()
	byRoot := map[*Term][]*Term{}
	for a := range st.Heap {
		r := Root(a)
		byRoot[r] = append(byRoot[r], a)
	}
	seen := map[*Term]bool{}
	var work []*Term
	push := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			work = append(work, t)
		}
	}
	var scan func(t *Term)
	scan = func(t *Term) {
		if t == nil {
			return
		}
		if t.K == KObj {
			push(t)
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	for r := range byRoot {
		if r.K == KGlobal {
			push(r)
		}
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byRoot[r] {
			v := st.Heap[a]
			out.Heap[a] = v
			scan(a)
			scan(v)
		}
		if sg, ok := st.Segs[r]; ok {
			out.Segs[r] = sg
			for _, s := range sg {
				scan(s.Tmpl)
				scan(s.View)
			}
		}
		if d, ok := st.Dirty[r]; ok {
			out.Dirty[r] = d
		}
	}
	for k, v := range st.Epochs {
		out.Epochs[k] = v
	}
	return out
}

func zeroGlobal(st *State, addr *Term, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok {
		if at.Len() <= 1024 {
			for i := int64(0); i < at.Len(); i++ {
				zeroGlobal(st, IndexAddr(addr, Int(i), types.NewPointer(at.Elem())), at.Elem())
			}
		}
		return
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			zeroGlobal(st, FieldAddr(addr, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
		}
		return
	}
	st.Heap[addr] = Zero(t)
}

// Base returns the state after initialisation, restricted to the globals of
// the given packages and what they reach.
func (p *Program) Base(rels ...string) *State {
	full := p.fullBase()
	keep := map[string]bool{}
	for _, r := range rels {
		if r == "" {
			keep[RepoPrefix] = true
		} else {
			keep[RepoPrefix+"/"+r] = true
		}
	}
	for a := range full.Heap {
		if r := Root(a); r.K == KGlobal && !keep[r.G.Pkg.Pkg.Path()] {
			delete(full.Heap, a)
		}
	}
	return gc(full)
}
