package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Points-to analysis of the whole module: inclusion based, flow and context
// insensitive, field sensitive.

var debugPut = os.Getenv("SA_PUT")

type pset []uint64

func (s *pset) add(i int) bool {
	w := i / 64
	for len(*s) <= w {
		*s = append(*s, 0)
	}
	b := uint64(1) << uint(i%64)
	if (*s)[w]&b != 0 {
		return false
	}
	(*s)[w] |= b
	return true
}

func (s *pset) or(t pset) bool {
	ch := false
	for len(*s) < len(t) {
		*s = append(*s, 0)
	}
	for i, w := range t {
		if (*s)[i]|w != (*s)[i] {
			(*s)[i] |= w
			ch = true
		}
	}
	return ch
}

func (s pset) has(i int) bool { return i/64 < len(s) && s[i/64]&(1<<uint(i%64)) != 0 }

func (s pset) each(f func(i int)) {
	for w, b := range s {
		for b != 0 {
			k := bits.TrailingZeros64(b)
			b &^= 1 << uint(k)
			f(w*64 + k)
		}
	}
}

type pobj struct {
	id      int
	kind    string // alloc, global, func, closure, box, map, array, chan, ext, given
	typ     types.Type
	pos     token.Pos
	in      *ssa.Function
	fn      *ssa.Function // of a func or closure
	parent  *pobj
	field   int
	subs    map[int]*pobj
	content pset
	name    string
	global  *ssa.Global
}

func (o *pobj) root() *pobj {
	for o.parent != nil {
		o = o.parent
	}
	return o
}

func (o *pobj) depth() int {
	n := 0
	for ; o.parent != nil; o = o.parent {
		n++
	}
	return n
}

type pts struct {
	c      *Ctx
	fns    []*ssa.Function
	known  map[*ssa.Function]bool
	vals   map[ssa.Value]*pset
	objs   []*pobj
	sites  map[interface{}]*pobj
	rets   map[*ssa.Function][]*pset
	panics pset
	change bool
	impls  map[*types.Func][]*ssa.Function
	named  []types.Type
	rounds int
	// calls of an external function: instruction and the sets of its arguments
	extern map[ssa.CallInstruction]*ssa.Function
	calls  map[*ssa.Function]map[*ssa.Function]token.Pos // who calls
	prov   map[[2]int]ssa.Instruction
	cur    ssa.Instruction
}

const elemField = -1

func newPts(c *Ctx) *pts {
	p := &pts{c: c, known: map[*ssa.Function]bool{}, vals: map[ssa.Value]*pset{}, sites: map[interface{}]*pobj{}, rets: map[*ssa.Function][]*pset{}, impls: map[*types.Func][]*ssa.Function{}, extern: map[ssa.CallInstruction]*ssa.Function{}, calls: map[*ssa.Function]map[*ssa.Function]token.Pos{}}
	for _, f := range c.P.AllFuncs() {
		p.fn(f)
	}
	for _, f := range p.fns {
		if f.Pkg == nil {
			continue
		}
	}
	seen := map[*types.Package]bool{}
	for _, f := range p.fns {
		if f.Pkg != nil && !seen[f.Pkg.Pkg] {
			seen[f.Pkg.Pkg] = true
			sc := f.Pkg.Pkg.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
					if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
						p.named = append(p.named, tn.Type())
					}
				}
			}
		}
	}
	return p
}

// fn registers a function of the module.
func (p *pts) fn(f *ssa.Function) bool {
	if p.known[f] {
		return true
	}
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	in := f.Pkg != nil && ai.InRepo(f.Pkg.Pkg.Path())
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			in = ai.InRepo(o.Pkg().Path())
		} else if f.Parent() != nil {
			in = p.fn(f.Parent())
		}
	}
	if !in {
		return false
	}
	p.known[f] = true
	p.fns = append(p.fns, f)
	p.change = true
	return true
}

func (p *pts) obj(site interface{}, kind string, t types.Type, in *ssa.Function, pos token.Pos, name string) *pobj {
	if o := p.sites[site]; o != nil {
		return o
	}
	o := &pobj{id: len(p.objs), kind: kind, typ: t, in: in, pos: pos, name: name}
	p.sites[site] = o
	p.objs = append(p.objs, o)
	p.change = true
	return o
}

func (p *pts) sub(o *pobj, f int, t types.Type) *pobj {
	if s := o.subs[f]; s != nil {
		return s
	}
	if o.depth() >= 3 {
		return o
	}
	if o.subs == nil {
		o.subs = map[int]*pobj{}
	}
	s := &pobj{id: len(p.objs), kind: o.kind, typ: t, in: o.in, pos: o.pos, parent: o, field: f, name: o.name}
	o.subs[f] = s
	p.objs = append(p.objs, s)
	p.change = true
	return s
}

func (p *pts) set(v ssa.Value) *pset {
	s := p.vals[v]
	if s == nil {
		s = &pset{}
		p.vals[v] = s
	}
	return s
}

func (p *pts) put(v ssa.Value, t pset) {
	if d := debugPut; d != "" && v.Parent() != nil && strings.Contains(v.Parent().String(), d) {
		t.each(func(i int) {
			if !p.set(v).has(i) {
				fmt.Fprintln(os.Stderr, "put", v.Parent(), v.Name(), p.objs[i].kind, p.describe(p.objs[i]), "at", p.cur.Parent(), p.c.Loc(p.cur.Pos()))
			}
		})
	}
	if p.set(v).or(t) {
		p.change = true
	}
}

func (p *pts) putObj(v ssa.Value, o *pobj) {
	if p.set(v).add(o.id) {
		p.change = true
	}
}

// get is what a value points to.
func (p *pts) get(v ssa.Value) pset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		o := p.obj(v, "global", v.Type().(*types.Pointer).Elem(), nil, v.Pos(), v.String())
		o.global = v
		s := p.set(v)
		s.add(o.id)
		return *s
	case *ssa.Function:
		p.fn(v)
		o := p.obj(v, "func", v.Type(), nil, v.Pos(), v.String())
		o.fn = v
		s := p.set(v)
		s.add(o.id)
		return *s
	}
	return *p.set(v)
}

// load is what is stored in an object, its parts, or what contains it.
func (p *pts) load(o *pobj) pset {
	out := append(pset(nil), o.content...)
	for q := o.parent; q != nil; q = q.parent {
		out.or(q.content)
	}
	var rec func(q *pobj)
	rec = func(q *pobj) {
		for _, s := range q.subs {
			out.or(s.content)
			rec(s)
		}
	}
	rec(o)
	return out
}

func (p *pts) loadAll(s pset) pset {
	var out pset
	s.each(func(i int) { out.or(p.load(p.objs[i])) })
	return out
}

func (p *pts) elems(s pset) pset {
	var out pset
	s.each(func(i int) {
		o := p.objs[i]
		out.or(p.load(p.sub(o, elemField, elemType(o.typ))))
	})
	return out
}

func (p *pts) note(o *pobj, v pset) {
	if p.prov == nil {
		return
	}
	v.each(func(j int) {
		if !o.content.has(j) {
			p.prov[[2]int{o.id, j}] = p.cur
		}
	})
}

func (p *pts) store(s, v pset) {
	s.each(func(i int) {
		p.note(p.objs[i], v)
		if p.objs[i].content.or(v) {
			p.change = true
		}
	})
}

func (p *pts) storeElems(s, v pset) {
	s.each(func(i int) {
		o := p.objs[i]
		p.note(p.sub(o, elemField, elemType(o.typ)), v)
		if p.sub(o, elemField, elemType(o.typ)).content.or(v) {
			p.change = true
		}
	})
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// fits: a value of type t can point to the object.
func fits(o *pobj, t types.Type) bool {
	if o.typ == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch o.kind {
		case "func", "closure", "map", "chan":
			return false
		}
		if types.Identical(o.typ, u.Elem()) {
			return true
		}
		// conversions between pointers to the same underlying type
		return types.Identical(o.typ.Underlying(), u.Elem().Underlying())
	case *types.Map:
		return o.kind == "map" && types.Identical(o.typ.Underlying(), u)
	case *types.Chan:
		return o.kind == "chan"
	case *types.Signature:
		return o.kind == "func" || o.kind == "closure"
	case *types.Slice:
		e := elemType(o.typ)
		return o.kind != "map" && o.kind != "chan" && e != nil && types.Identical(e, u.Elem())
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return true
}

func (p *pts) fit(s pset, t types.Type) pset {
	if !pointing(t) {
		return nil
	}
	var out pset
	s.each(func(i int) {
		if fits(p.objs[i], t) {
			out.add(i)
		}
	})
	return out
}

// pointing: values of the type can lead to an object.
func pointing(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointing(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointing(u.Elem())
	}
	return true
}

// solve runs to the fixed point.
func (p *pts) solve() {
	for {
		p.change = false
		p.rounds++
		for i := 0; i < len(p.fns); i++ {
			f := p.fns[i]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					p.cur = in
					p.step(f, in)
				}
			}
		}
		if !p.change || p.rounds > 200 {
			return
		}
	}
}

func (p *pts) step(f *ssa.Function, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if _, isCall := in.(*ssa.Call); !isCall {
			p.value(f, v)
			return
		}
	}
	switch in := in.(type) {
	case ssa.CallInstruction:
		p.call(f, in)
	case *ssa.Store:
		p.store(p.get(in.Addr), p.get(in.Val))
	case *ssa.MapUpdate:
		v := append(pset(nil), p.get(in.Value)...)
		v.or(p.get(in.Key))
		p.storeElems(p.get(in.Map), v)
	case *ssa.Send:
		p.storeElems(p.get(in.Chan), p.get(in.X))
	case *ssa.Panic:
		if p.panics.or(p.get(in.X)) {
			p.change = true
		}
	case *ssa.Return:
		rs := p.results(f)
		for i, r := range in.Results {
			if rs[i].or(p.get(r)) {
				p.change = true
			}
		}
	}
}

func (p *pts) results(f *ssa.Function) []*pset {
	rs := p.rets[f]
	if rs == nil {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs = append(rs, &pset{})
		}
		p.rets[f] = rs
	}
	return rs
}

func (p *pts) value(f *ssa.Function, v ssa.Value) {
	if !pointing(v.Type()) {
		if _, isTuple := v.Type().(*types.Tuple); !isTuple {
			return
		}
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		p.putObj(v, p.obj(v, "alloc", v.Type().Underlying().(*types.Pointer).Elem(), f, v.Pos(), v.Comment))
	case *ssa.MakeMap:
		p.putObj(v, p.obj(v, "map", v.Type(), f, v.Pos(), "map"))
	case *ssa.MakeSlice:
		p.putObj(v, p.obj(v, "array", v.Type(), f, v.Pos(), "slice"))
	case *ssa.MakeChan:
		p.putObj(v, p.obj(v, "chan", v.Type(), f, v.Pos(), "chan"))
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		p.fn(fn)
		o := p.obj(v, "closure", v.Type(), f, v.Pos(), fn.String())
		o.fn = fn
		for i, b := range v.Bindings {
			s := p.get(b)
			if o.content.or(s) {
				p.change = true
			}
			if i < len(fn.FreeVars) {
				p.put(fn.FreeVars[i], s)
			}
		}
		p.putObj(v, o)
	case *ssa.MakeInterface:
		switch v.X.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			o := p.obj(v, "box", v.X.Type(), f, v.Pos(), "value")
			if o.content.or(p.get(v.X)) {
				p.change = true
			}
			p.putObj(v, o)
		default:
			p.put(v, p.get(v.X))
		}
	case *ssa.FieldAddr:
		st, _ := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.get(v.X).each(func(i int) {
			o := p.objs[i]
			if fits(o, v.X.Type()) {
				p.putObj(v, p.sub(o, v.Field, st.Field(v.Field).Type()))
			}
		})
	case *ssa.IndexAddr:
		p.get(v.X).each(func(i int) {
			o := p.objs[i]
			if fits(o, v.X.Type()) {
				p.putObj(v, p.sub(o, elemField, v.Type().Underlying().(*types.Pointer).Elem()))
			}
		})
	case *ssa.Field:
		p.put(v, p.fit(p.get(v.X), v.Type()))
	case *ssa.Index:
		p.put(v, p.get(v.X))
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			p.put(v, p.fit(p.loadAll(p.get(v.X)), v.Type()))
		case token.ARROW:
			p.put(v, p.elems(p.get(v.X)))
		}
	case *ssa.Lookup:
		p.put(v, p.elems(p.get(v.X)))
	case *ssa.Range:
		p.put(v, p.get(v.X))
	case *ssa.Next:
		p.put(v, p.elems(p.get(v.Iter)))
	case *ssa.Slice:
		p.put(v, p.get(v.X))
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.put(v, p.get(e))
		}
	case *ssa.ChangeType:
		p.put(v, p.get(v.X))
	case *ssa.ChangeInterface:
		p.put(v, p.get(v.X))
	case *ssa.SliceToArrayPointer:
		p.put(v, p.get(v.X))
	case *ssa.Convert:
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			p.putObj(v, p.obj(v, "array", v.Type(), f, v.Pos(), "bytes of a text"))
			return
		}
		p.put(v, p.get(v.X))
	case *ssa.TypeAssert:
		t := v.AssertedType
		s := p.get(v.X)
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			s.each(func(i int) {
				if o := p.objs[i]; o.kind == "box" && types.Identical(o.typ, t) || o.kind == "ext" {
					p.put(v, p.load(o))
				}
			})
		default:
			p.put(v, p.fit(s, t))
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && p.known[fn] {
				p.put(v, *p.results(fn)[v.Index])
				return
			}
		}
		p.put(v, p.fit(p.get(v.Tuple), v.Type()))
	case *ssa.Select:
		for _, s := range v.States {
			if s.Dir == types.RecvOnly {
				p.put(v, p.elems(p.get(s.Chan)))
			} else {
				p.storeElems(p.get(s.Chan), p.get(s.Send))
			}
		}
	}
}

func (p *pts) edge(from, to *ssa.Function, pos token.Pos) {
	m := p.calls[to]
	if m == nil {
		m = map[*ssa.Function]token.Pos{}
		p.calls[to] = m
	}
	if _, ok := m[from]; !ok {
		m[from] = pos
	}
}

// enter passes the arguments of a call.
func (p *pts) enter(from *ssa.Function, in ssa.CallInstruction, fn *ssa.Function, args []pset) {
	p.edge(from, fn, in.Pos())
	for i, a := range args {
		if i < len(fn.Params) {
			p.put(fn.Params[i], p.fit(a, fn.Params[i].Type()))
		}
	}
	if v := in.Value(); v != nil {
		for _, r := range p.results(fn) {
			p.put(v, *r)
		}
	}
}

func (p *pts) call(f *ssa.Function, in ssa.CallInstruction) {
	cc := in.Common()
	var args []pset
	for _, a := range cc.Args {
		args = append(args, p.get(a))
	}
	if cc.IsInvoke() {
		recv := p.get(cc.Value)
		for _, fn := range p.targets(cc.Method, cc.Value.Type()) {
			rt := fn.Params[0].Type()
			var r pset
			if _, isStruct := rt.Underlying().(*types.Struct); isStruct {
				recv.each(func(i int) {
					if o := p.objs[i]; o.kind == "box" && types.Identical(o.typ, rt) || o.kind == "ext" || o.kind == "given" {
						r.or(p.load(o))
					}
				})
			} else {
				r = p.fit(recv, rt)
			}
			p.enter(f, in, fn, append([]pset{r}, args...))
		}
		if m := cc.Method; m.Pkg() != nil && !ai.InRepo(m.Pkg().Path()) {
			p.extern[in] = nil
			if v := in.Value(); v != nil && pointing(v.Type()) && !opaqueResult(v.Type()) {
				r := append(pset(nil), recv...)
				r.or(p.loadAll(recv))
				p.put(v, p.fit(r, v.Type()))
			}
		}
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(f, in, b, args)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			p.value(f, mc)
		}
		if p.fn(fn) {
			p.enter(f, in, fn, args)
		} else {
			p.external(f, in, fn, args)
		}
		return
	}
	p.get(cc.Value).each(func(i int) {
		o := p.objs[i]
		if o.fn == nil || o.fn.Signature == nil {
			return
		}
		if !types.Identical(sansRecv(o.fn.Signature), sansRecv(cc.Signature())) && o.fn.Signature.Recv() == nil {
			return
		}
		if p.fn(o.fn) {
			p.enter(f, in, o.fn, args)
		} else {
			p.external(f, in, o.fn, args)
		}
	})
}

func sansRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// targets are the methods of the module an interface call may reach.
func (p *pts) targets(m *types.Func, it types.Type) []*ssa.Function {
	if fs, ok := p.impls[m]; ok {
		return fs
	}
	iface, _ := it.Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, t := range p.named {
		for _, t := range []types.Type{t, types.NewPointer(t)} {
			if iface == nil || !types.Implements(t, iface) {
				continue
			}
			if fn := ai.MethodOf(p.c.P.Prog, t, m.Pkg(), m.Name()); fn != nil && p.fn(fn) {
				dup := false
				for _, g := range out {
					dup = dup || g == fn
				}
				if !dup {
					out = append(out, fn)
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

func (p *pts) builtin(f *ssa.Function, in ssa.CallInstruction, b *ssa.Builtin, args []pset) {
	v := in.Value()
	switch b.Name() {
	case "append":
		o := p.obj(in, "array", in.Common().Args[0].Type(), f, in.Pos(), "slice")
		var es pset
		es.or(p.elems(args[0]))
		if len(args) > 1 {
			es.or(p.elems(args[1]))
			p.storeElems(args[0], p.elems(args[1]))
		}
		var self pset
		self.add(o.id)
		p.storeElems(self, es)
		if v != nil {
			p.put(v, args[0])
			p.putObj(v, o)
		}
	case "copy":
		p.storeElems(args[0], p.elems(args[1]))
	case "recover":
		if v != nil {
			p.put(v, p.panics)
		}
	}
}

// opaqueResult: a result that leads to no object of the caller.
func opaqueResult(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() != "Value" {
		return true
	}
	return types.Identical(t, errType())
}

// copies: a method that keeps no pointer it is given.
func copies(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	switch fn.Object().Pkg().Path() {
	case "math/big", "go/token", "bytes", "strings", "regexp", "os":
		return true
	}
	return false
}

// external is a call of a function without a body here: its result may be any
// of its arguments or what they hold, a method keeps its arguments in its
// receiver, and functions among them are called.
func (p *pts) external(f *ssa.Function, in ssa.CallInstruction, fn *ssa.Function, args []pset) {
	p.extern[in] = fn
	var all pset
	for _, a := range args {
		all.or(a)
	}
	var deep pset
	deep.or(all)
	deep.or(p.loadAll(all))
	deep.or(p.elems(all))
	if fn != nil && fn.Signature.Recv() != nil && len(args) > 1 {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok && !copies(fn) {
			for _, a := range args[1:] {
				p.store(args[0], a)
			}
		}
	}
	all.each(func(i int) {
		o := p.objs[i]
		if o.fn == nil || !p.fn(o.fn) {
			return
		}
		var as []pset
		for range o.fn.Params {
			as = append(as, deep)
		}
		p.edge(f, o.fn, in.Pos())
		for i, a := range as {
			p.put(o.fn.Params[i], p.fit(a, o.fn.Params[i].Type()))
		}
		for _, r := range p.results(o.fn) {
			deep.or(*r)
		}
	})
	v := in.Value()
	if v == nil {
		return
	}
	if tt, isTuple := v.Type().(*types.Tuple); isTuple || pointing(v.Type()) {
		if isTuple {
			any := false
			for i := 0; i < tt.Len(); i++ {
				any = any || pointing(tt.At(i).Type()) && !opaqueResult(tt.At(i).Type())
			}
			if !any {
				return
			}
		} else if opaqueResult(v.Type()) {
			return
		}
		p.put(v, deep)
		if !isTuple && fn != nil {
			switch v.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
				var et types.Type = v.Type()
				if q, ok := et.Underlying().(*types.Pointer); ok {
					et = q.Elem()
				}
				p.putObj(v, p.obj(in, "ext", et, f, in.Pos(), "what "+fn.String()+" returns"))
			}
		}
	}
}

// ---- writes

type pwrite struct {
	in   *ssa.Function
	pos  token.Pos
	to   pset // objects written
	what string
	v    ssa.Value // what is written into
}

// writes are all the places of a function that write into an object.
func (p *pts) writes(f *ssa.Function) []pwrite {
	var out []pwrite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				out = append(out, pwrite{f, in.Pos(), p.get(in.Addr), "stores into", in.Addr})
			case *ssa.MapUpdate:
				out = append(out, pwrite{f, in.Pos(), p.get(in.Map), "sets an entry of", in.Map})
			case *ssa.Send:
				out = append(out, pwrite{f, in.Pos(), p.get(in.Chan), "sends to", in.Chan})
			case ssa.CallInstruction:
				cc := in.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						out = append(out, pwrite{f, in.Pos(), p.get(cc.Args[0]), "appends in place to", cc.Args[0]})
					case "copy":
						out = append(out, pwrite{f, in.Pos(), p.get(cc.Args[0]), "copies into", cc.Args[0]})
					case "delete", "clear":
						out = append(out, pwrite{f, in.Pos(), p.get(cc.Args[0]), "deletes from", cc.Args[0]})
					}
					continue
				}
				fn, ok := p.extern[in]
				if !ok {
					continue
				}
				for _, k := range mutated(in, fn) {
					v := cc.Value
					if k >= 0 {
						v = cc.Args[k]
					}
					name := "a method of an interface"
					if fn != nil {
						name = fn.String()
					} else if cc.IsInvoke() {
						name = cc.Method.FullName()
					}
					out = append(out, pwrite{f, in.Pos(), p.get(v), "calls " + name + " on", v})
				}
			}
		}
	}
	return out
}

// mutated are the arguments an external function writes into (-1: the value
// an interface method is called on).
func mutated(in ssa.CallInstruction, fn *ssa.Function) []int {
	cc := in.Common()
	if fn == nil {
		return nil
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		switch path {
		case "sync", "sync/atomic", "os", "log", "regexp", "text/template", "html/template":
			return nil
		case "reflect":
			n := fn.Name()
			if strings.HasPrefix(n, "Set") || n == "Send" || n == "TrySend" || n == "Grow" || n == "Clear" {
				return []int{0}
			}
			return nil
		}
		if _, ok := recv.Type().(*types.Pointer); !ok {
			return nil
		}
		n := fn.Name()
		if path == "math/big" {
			switch n {
			case "Set", "Add", "Sub", "Mul", "Quo", "Rem", "Mod", "Div", "DivMod", "QuoRem", "Exp", "Neg", "Abs", "Inv", "And", "Or", "Xor", "Not", "AndNot", "Lsh", "Rsh", "Sqrt", "GCD", "ModInverse", "ModSqrt", "Rand", "Binomial", "MulRange", "Scan", "GobDecode", "UnmarshalText", "UnmarshalJSON", "Copy":
				return []int{0}
			}
			if strings.HasPrefix(n, "Set") {
				return []int{0}
			}
			return nil
		}
		// a method with a pointer receiver may change it
		for _, ro := range []string{"Len", "Cap", "String", "Bytes", "Error", "Unwrap", "Name", "Pos", "Position", "File", "Front", "Back", "Next", "Prev"} {
			if n == ro {
				return nil
			}
		}
		return []int{0}
	}
	k := path + "." + fn.Name()
	switch k {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "utf8.EncodeRune", "unicode/utf8.EncodeRune", "encoding/hex.Decode", "encoding/hex.Encode":
		return []int{0}
	case "encoding/json.Unmarshal", "io.ReadFull", "io.ReadAtLeast", "reflect.Copy":
		if k == "reflect.Copy" {
			return []int{0}
		}
		return []int{1}
	case "reflect.Swapper":
		return []int{0}
	}
	if path == "slices" {
		switch n := fn.Name(); {
		case strings.HasPrefix(n, "Sort"), strings.HasPrefix(n, "Reverse"), strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Insert"), strings.HasPrefix(n, "Replace"), strings.HasPrefix(n, "Compact"):
			return []int{0}
		}
	}
	if path == "maps" {
		switch n := fn.Name(); {
		case strings.HasPrefix(n, "Copy"), strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Insert"):
			return []int{0}
		}
	}
	if strings.HasPrefix(fn.Name(), "Append") && (path == "strconv" || path == "fmt" || path == "unicode/utf8") {
		return []int{0}
	}
	if (path == "fmt" && (strings.HasPrefix(fn.Name(), "Sscan") || strings.HasPrefix(fn.Name(), "Fscan"))) && len(cc.Args) > 0 {
		return []int{len(cc.Args) - 1}
	}
	return nil
}

// processState are functions that change the state of the whole process.
var processState = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true,
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true,
	"math/rand.Seed": true, "runtime.GOMAXPROCS": true, "runtime/debug.SetGCPercent": true,
}

// scriptWrite: a function that scripts call changes what its argument leads to.
func scriptWrite(w pwrite) bool {
	f := w.in
	if f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "/tpl/qlang/lib/") {
		return false
	}
	return derived(w.v, false)
}

// freshWrite: what is written into is made by this very call.
func freshWrite(w pwrite) bool { return derived(w.v, true) }

// derived: a value comes from objects made in its function only, or from its
// parameters only.
func derived(v ssa.Value, fresh bool) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Parameter:
			return !fresh
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			return fresh
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.MakeInterface:
			return from(v.X)
		case *ssa.ChangeType:
			return from(v.X)
		case *ssa.ChangeInterface:
			return from(v.X)
		case *ssa.TypeAssert:
			return from(v.X)
		case *ssa.Extract:
			return from(v.Tuple)
		case *ssa.IndexAddr:
			return from(v.X)
		case *ssa.FieldAddr:
			return from(v.X)
		case *ssa.Slice:
			return from(v.X)
		case *ssa.UnOp:
			return !fresh && from(v.X)
		case *ssa.Alloc:
			if fresh {
				return true
			}
			// a local that holds such a value
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v && !from(s.Val) {
					return false
				}
			}
			return true
		case *ssa.Call:
			fn := v.Call.StaticCallee()
			if fresh || fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "reflect" || len(v.Call.Args) == 0 {
				return false
			}
			return from(v.Call.Args[0])
		}
		return false
	}
	return from(v)
}

func (p *pts) describe(o *pobj) string {
	r := o.root()
	s := r.name
	if r.kind != "global" {
		s = fmt.Sprintf("%s made at %s", r.name, p.c.Loc(r.pos))
	}
	return s
}

// why gives a path from one of the roots to an object.
func (p *pts) why(roots pset, to int) string {
	from := map[int]int{}
	var q []int
	roots.each(func(i int) { from[i] = -1; q = append(q, i) })
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		if i == to {
			var s []string
			for ; i >= 0; i = from[i] {
				o := p.objs[i]
				n := o.kind + " " + p.describe(o)
				for ; o.parent != nil; o = o.parent {
					n += fmt.Sprintf(".%d", o.field)
				}
				if k := from[i]; k >= 0 {
					if in := p.prov[[2]int{k, i}]; in != nil {
						n += " [" + in.Parent().String() + " " + p.c.Loc(in.Pos()) + "]"
					}
				}
				s = append(s, n)
			}
			return strings.Join(s, " < ")
		}
		o := p.objs[i]
		see := func(j int) {
			if _, ok := from[j]; !ok {
				from[j] = i
				q = append(q, j)
			}
		}
		for _, s := range o.subs {
			see(s.id)
		}
		o.content.each(see)
		for r := o.parent; r != nil; r = r.parent {
			r.content.each(see)
		}
	}
	return ""
}

// ---- X01

func checkShared(c *Ctx) {
	c.Rule("no function of the library writes - by assignment, map update, append in place, copy, delete, reflection, or a method of the standard library that changes its receiver - into a package-level variable or an object that is reachable from one, except package initialisation (and what only it calls), registration (Import, SetAutoCall, SetDumpStack) and what only that calls, and functions given to sync.Once")
	p := newPts(c)
	if os.Getenv("SA_WHY") != "" {
		p.prov = map[[2]int]ssa.Instruction{}
	}
	p.seedExported()
	p.solve()
	m := c.Machine()
	st := ai.NewState()
	if !m.Check(st, p.rounds <= 200, token.NoPos, "the analysis does not end") {
		c.Absorb("points-to", m)
		return
	}
	shared := p.shared()
	exempt, reg := p.initOnly()
	nw, nf, no := 0, 0, 0
	for i := range p.objs {
		if shared.has(i) {
			no++
		}
	}
	for _, f := range p.fns {
		if program(f) || exempt[f] {
			continue
		}
		nf++
		c.Fns[f.String()] = true
		for _, w := range p.writes(f) {
			nw++
			if scriptWrite(w) || freshWrite(w) {
				continue
			}
			var bad []string
			w.to.each(func(i int) {
				o := p.objs[i]
				if shared.has(o.id) {
					bad = append(bad, p.describe(o))
				}
			})
			sort.Strings(bad)
			d := ""
			if len(bad) > 0 {
				d = bad[0]
				if os.Getenv("SA_WHY") != "" {
					var roots pset
					for _, o := range p.objs {
						if p.libGlobal(o) {
							roots.add(o.id)
						}
					}
					w.to.each(func(i int) {
						if shared.has(i) {
							fmt.Fprintln(os.Stderr, c.Loc(w.pos), p.why(roots, i))
						}
					})
				}
			}
			m.Check(st, len(bad) == 0, w.pos, "%s %s %s, which all users of the package share", f, w.what, d)
		}
	}
	for in, fn := range p.extern {
		f := in.Parent()
		if fn == nil || fn.Pkg == nil || program(f) || exempt[f] {
			continue
		}
		m.Check(st, !processState[fn.Pkg.Pkg.Path()+"."+fn.Name()], in.Pos(), "%s calls %s, which changes the whole process", f, fn)
	}
	// nothing but users and initialisation registers
	for f := range reg {
		for g, pos := range p.calls[f] {
			if !program(g) && !exempt[g] {
				m.Check(st, false, pos, "%s calls %s, which changes what all users share", g, f)
			}
		}
	}
	c.Absorb("writes", m)
	c.Case("%d writes in %d functions that are neither initialisation nor registration; %d objects, %d of them shared; %d rounds", nw, nf, len(p.objs), no, p.rounds)
}

// seedExported gives to parameters of exported functions the exported
// variables of their type.
func (p *pts) seedExported() {
	type gl struct {
		g *ssa.Global
		t types.Type
	}
	var gs []gl
	seen := map[*ssa.Package]bool{}
	for _, f := range append([]*ssa.Function(nil), p.fns...) {
		if f.Pkg == nil || seen[f.Pkg] || program(f) {
			continue
		}
		seen[f.Pkg] = true
		var names []string
		for n := range f.Pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := f.Pkg.Members[n].(*ssa.Global); ok && token.IsExported(n) {
				gs = append(gs, gl{g, g.Type().(*types.Pointer).Elem()})
			}
		}
	}
	p.solve()
	for _, f := range append([]*ssa.Function(nil), p.fns...) {
		if f.Object() == nil || !f.Object().Exported() || program(f) {
			continue
		}
		for _, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			default:
				continue
			}
			for _, g := range gs {
				if types.Identical(g.t, q.Type()) && !isErrorType(g.t) {
					p.put(q, p.loadAll(p.get(g.g)))
				}
			}
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, errType()) || types.Identical(t, ai.TAny)
}

// libGlobal: a variable of a package that is no program.
func (p *pts) libGlobal(o *pobj) bool {
	return o.kind == "global" && o.parent == nil && (o.global.Pkg == nil || o.global.Pkg.Pkg.Name() != "main")
}

// shared are the objects reachable from package-level variables.
func (p *pts) shared() pset {
	var s pset
	var work []*pobj
	add := func(o *pobj) {
		if s.add(o.id) {
			work = append(work, o)
		}
	}
	for _, o := range p.objs {
		if p.libGlobal(o) {
			add(o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, q := range o.subs {
			add(q)
		}
		o.content.each(func(i int) { add(p.objs[i]) })
		for q := o.parent; q != nil; q = q.parent {
			q.content.each(func(i int) { add(p.objs[i]) })
		}
	}
	return s
}

// initOnly are the functions that only initialisation or registration calls.
func (p *pts) initOnly() (map[*ssa.Function]bool, map[*ssa.Function]bool) {
	ex, reg := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{} // used other than by a call
	once := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		if f.Name() == "init" && f.Synthetic != "" || f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			ex[f] = true
		}
		if f.Object() != nil && f.Signature.Recv() == nil && f.Pkg != nil {
			rel := strings.TrimPrefix(f.Pkg.Pkg.Path(), ai.RepoPrefix+"/")
			switch rel + "." + f.Name() {
			case "tpl/qlang/spec.Import", "tpl/qlang/spec.SetAutoCall", "tpl/qlang/spec.SetDumpStack", "tpl/qlang.Import", "tpl/qlang.SetAutoCall", "tpl/qlang.SetDumpStack", "tpl/qlang.SetReadFile", "tpl/qlang.SetEntryPoint":
				ex[f] = true
				reg[f] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				ci, isCall := in.(*ssa.Call)
				if isCall && !ci.Call.IsInvoke() {
					callee = ci.Call.Value
					if fn := ci.Call.StaticCallee(); fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sync" && fn.Name() == "Do" && len(ci.Call.Args) == 2 {
						switch a := ci.Call.Args[1].(type) {
						case *ssa.Function:
							once[a] = true
							continue
						case *ssa.MakeClosure:
							once[a.Fn.(*ssa.Function)] = true
							continue
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						rc, ok := r.(*ssa.Call)
						if !ok || rc.Call.Value != ssa.Value(mc) {
							if !ok || rc.Call.StaticCallee() == nil || rc.Call.StaticCallee().Name() != "Do" {
								taken[mc.Fn.(*ssa.Function)] = true
							}
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && (callee == nil || op != &ci.Call.Value) {
						taken[fn] = true
					}
				}
			}
		}
	}
	for f := range once {
		if !taken[f] {
			ex[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.fns {
			if ex[f] || taken[f] || f.Object() != nil && f.Object().Exported() || len(p.calls[f]) == 0 {
				continue
			}
			only := true
			for g := range p.calls[f] {
				only = only && ex[g]
			}
			if only {
				ex[f] = true
				ch = true
			}
		}
	}
	return ex, reg
}

func init() {
	register("X01", "inclusion-based points-to analysis of the whole module (field sensitive), then every write of a function that is neither initialisation nor registration is compared with the objects reachable from package-level variables", checkShared)
	register("X02", "inclusion-based points-to analysis of the whole module (field sensitive), with an object for every source and token slice given to an exported function; every write is compared with them", checkSources)
}

// ---- X02

func checkSources(c *Ctx) {
	c.Rule("no function of the library writes - by assignment to an element, append in place, copy, reflection or a function of the standard library that fills its argument - into the elements of a []byte or []Token that an exported function or method, or an action, was given")
	p := newPts(c)
	tokT := c.Type("tpl", "Token")
	if tokT == nil {
		return
	}
	bytesT, toksT := types.NewSlice(types.Typ[types.Byte]), types.NewSlice(tokT)
	var given pset
	n := 0
	for _, f := range append([]*ssa.Function(nil), p.fns...) {
		literal := f.Parent() != nil && f.Object() == nil
		if !literal && (f.Object() == nil || !f.Object().Exported()) || program(f) {
			continue
		}
		for i, q := range f.Params {
			if literal && !types.Identical(q.Type().Underlying(), toksT) {
				continue
			}
			if i == 0 && f.Signature.Recv() != nil {
				continue
			}
			var ts []types.Type
			switch u := q.Type().Underlying().(type) {
			case *types.Slice:
				if types.Identical(u, bytesT) || types.Identical(u, toksT) {
					ts = append(ts, u)
				}
			case *types.Interface:
				// a source in an interface
				for _, r := range *q.Referrers() {
					if ta, ok := r.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, bytesT) && !strings.Contains(f.String(), "/qlang/lib/") {
						ts = append(ts, bytesT)
						break
					}
				}
			}
			if rs := f.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(0).Type(), q.Type()) {
				// a buffer to append to
				continue
			}
			for _, t := range ts {
				o := p.obj(q, "given", t, f, q.Pos(), q.Name()+" given to "+f.String())
				p.putObj(q, o)
				given.add(o.id)
				n++
			}
		}
	}
	p.solve()
	m := c.Machine()
	st := ai.NewState()
	if !m.Check(st, p.rounds <= 200, token.NoPos, "the analysis does not end") {
		c.Absorb("points-to", m)
		return
	}
	nw, nf := 0, 0
	for _, f := range p.fns {
		if program(f) {
			continue
		}
		nf++
		c.Fns[f.String()] = true
		for _, w := range p.writes(f) {
			nw++
			if scriptWrite(w) || freshWrite(w) {
				continue
			}
			var bad []string
			w.to.each(func(i int) {
				if r := p.objs[i].root(); given.has(r.id) {
					bad = append(bad, r.name)
				}
			})
			sort.Strings(bad)
			d := ""
			if len(bad) > 0 {
				d = bad[0]
			}
			m.Check(st, len(bad) == 0, w.pos, "%s %s %s", f, w.what, d)
		}
	}
	c.Absorb("writes", m)
	c.Case("%d writes in %d functions; %d sources and token slices given to exported functions or to actions; %d rounds", nw, nf, n, p.rounds)
}
