package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Ret   *Term // nil for no result; a tuple for several
	Panic *Term // non-nil: the call panics with this interface value
}

// CallInfo describes a call being interpreted.
type CallInfo struct {
	Instr  ssa.Instruction
	Fn     *ssa.Function // static or devirtualised callee (may be external)
	Method *types.Func   // interface method, when the receiver type is unknown
	Recv   *Term         // receiver interface of an unresolved invoke
	FnTerm *Term         // unresolved function value
	Args   []*Term       // for resolved methods Args[0] is the receiver
	Sig    *types.Signature
	Caller *ssa.Function
	Depth  int
}

// Pos returns the source position of the call.
func (c *CallInfo) Pos() token.Pos {
	if c.Instr != nil {
		return c.Instr.Pos()
	}
	return token.NoPos
}

// Name returns the name of the callee for matching ("pkg.F" or "(T).M").
func (c *CallInfo) Name() string {
	if c.Fn != nil {
		return c.Fn.String()
	}
	if c.Method != nil {
		return c.Method.FullName()
	}
	return ""
}

// Finding is one reported problem.
type Finding struct {
	Pos   token.Pos
	Where string
	Msg   string
	Notes []string
}

// Machine interprets functions abstractly.
type Machine struct {
	Prog *ssa.Program
	// Hook intercepts a call; ok=false falls through to inlining/modelling.
	Hook func(m *Machine, st *State, c *CallInfo) (outs []Outcome, ok bool)
	// BackEdge is called when a state reaches a loop back-edge (fixpoint mode).
	BackEdge func(m *Machine, st *State, header *ssa.BasicBlock)
	// Enter is called at a loop header in fixpoint mode, per stable state.
	AtHeader func(m *Machine, st *State, header *ssa.BasicBlock)
	// Key extends the partition key.
	Key func(st *State) string
	// OnStore observes stores.
	OnStore func(m *Machine, st *State, addr, v *Term, instr ssa.Instruction)
	// OnLoad observes loads of non-fresh cells.
	OnLoad func(m *Machine, st *State, addr *Term, instr ssa.Instruction)
	// RuntimePanics: create panic outcomes for run-time errors that are not
	// excluded; otherwise the operation is assumed to succeed.
	RuntimePanics bool
	// OnRuntimePanic observes a possible run-time panic (any mode).
	OnRuntimePanic func(m *Machine, st *State, instr ssa.Instruction, what string)

	// OnAppend observes r = append(a, b...).
	OnAppend func(m *Machine, st *State, a, b, r *Term, instr ssa.Instruction)
	// External overrides models of functions outside the module.
	External func(m *Machine, st *State, c *CallInfo) (outs []Outcome, ok bool)

	Findings  []Finding
	Undecided []string
	recording bool
	mute      int

	fnStack  []*ssa.Function
	frameSeq int
	MaxDepth int
	Unroll   int

	// statistics
	Fns    map[*ssa.Function]bool
	Paths  int
	Calls  int
	Steps  int
	Budget int
	Loops  int
	Oblig  int
	loops  map[*ssa.Function]*loopInfo
}

// NewMachine returns a machine with default limits.
func NewMachine(prog *ssa.Program) *Machine {
	return &Machine{Prog: prog, recording: true, MaxDepth: 40, Unroll: 64, Fns: map[*ssa.Function]bool{}, Budget: 3000000, loops: map[*ssa.Function]*loopInfo{}}
}

// Fail records a finding (only in stable passes).
func (m *Machine) Fail(st *State, pos token.Pos, format string, args ...interface{}) {
	if m.mute > 0 {
		return
	}
	f := Finding{Pos: pos, Msg: fmt.Sprintf(format, args...)}
	if st != nil {
		f.Notes = st.Notes()
	}
	if len(m.fnStack) > 0 {
		f.Where = m.fnStack[len(m.fnStack)-1].String()
	}
	m.Findings = append(m.Findings, f)
}

// Check records an obligation and fails when it is not met.
func (m *Machine) Check(st *State, ok bool, pos token.Pos, format string, args ...interface{}) bool {
	if m.mute == 0 {
		m.Oblig++
	}
	if !ok {
		m.Fail(st, pos, format, args...)
	}
	return ok
}

// Undecide records that something could not be analysed.
func (m *Machine) Undecide(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, u := range m.Undecided {
		if u == s {
			return
		}
	}
	m.Undecided = append(m.Undecided, s)
}

// Stable reports whether the current pass is one whose findings count.
func (m *Machine) Stable() bool { return m.mute == 0 }

type deferred struct {
	call *CallInfo
	bltn *ssa.Builtin
	args []*Term
}

// frame is one activation.
type frame struct {
	m         *Machine
	fn        *ssa.Function
	id        int
	caller    int // frame whose panic recover() sees
	outs      []Outcome
	li        *loopInfo
	curSerial int
}

type env struct {
	v      map[ssa.Value]*Term
	defers []deferred
}

func (e *env) clone() *env {
	n := &env{v: make(map[ssa.Value]*Term, len(e.v)+8), defers: e.defers[:len(e.defers):len(e.defers)]}
	for k, v := range e.v {
		n.v[k] = v
	}
	return n
}

type loopAct struct {
	l       *loop
	unroll  int
	back    []backState
	serial  int
	outer   *loopAct
	discard bool
}

type backState struct {
	st   *State
	env  *env
	pred *ssa.BasicBlock
}

// Run interprets fn and returns every outcome.
func (m *Machine) Run(fn *ssa.Function, args []*Term, binds []*Term, st *State) []Outcome {
	return m.call(fn, args, binds, st, -1)
}

func (m *Machine) call(fn *ssa.Function, args []*Term, binds []*Term, st *State, panicFrame int) []Outcome {
	if len(fn.Blocks) == 0 {
		m.Undecide("function %s has no body", fn)
		return nil
	}
	m.Fns[fn] = true
	m.frameSeq++
	f := &frame{m: m, fn: fn, id: m.frameSeq, caller: panicFrame}
	f.li = m.loopsOf(fn)
	m.fnStack = append(m.fnStack, fn)
	defer func() { m.fnStack = m.fnStack[:len(m.fnStack)-1] }()
	e := &env{v: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			e.v[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			e.v[p] = binds[i]
		}
	}
	f.enter(fn.Blocks[0], nil, e, st, nil)
	return f.outs
}

// Deadline ends the analysis.
var Deadline = time.Now().Add(10 * time.Minute)

func (f *frame) step() bool {
	f.m.Steps++
	if f.m.Steps > f.m.Budget || time.Now().After(Deadline) {
		f.m.Undecide("analysis budget exhausted in %s", f.fn)
		return false
	}
	return true
}

// enter moves control to block b from pred.
func (f *frame) enter(b, pred *ssa.BasicBlock, e *env, st *State, act *loopAct) {
	if !f.step() {
		return
	}
	if act != nil && act.l.header == b && pred != nil && act.l.body[pred] {
		// back edge of the innermost active loop
		if act.unroll > 0 {
			f.unrollHeader(b, pred, e, st, act)
			return
		}
		act.back = append(act.back, backState{st, e, pred})
		return
	}
	// leaving loops?
	a := act
	for a != nil && !a.l.body[b] {
		if a.discard {
			return
		}
		a = a.outer
	}
	if a != act && a != nil && a.l.header == b {
		// continue of an outer loop
		f.enter(b, pred, e, st, a)
		return
	}
	act = a
	if l := f.li.byHeader[b]; l != nil {
		n := &loopAct{l: l, outer: act, unroll: 1}
		f.unrollHeader(b, pred, e, st, n)
		return
	}
	f.phis(b, pred, e)
	f.block(b, e, st, act, f.firstNonPhi(b))
}

func (f *frame) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (f *frame) phis(b, pred *ssa.BasicBlock, e *env) {
	var vals []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pb := range b.Preds {
			if pb == pred {
				vals = append(vals, f.val(e, p.Edges[i]))
				ph = append(ph, p)
				break
			}
		}
	}
	for i, p := range ph {
		e.v[p] = vals[i]
	}
}

// unrollHeader peels iterations while the header's own test is decided.
func (f *frame) unrollHeader(b, pred *ssa.BasicBlock, e *env, st *State, act *loopAct) {
	l := act.l
	decided := false
	if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && l.headerExits {
		// evaluate the header on a scratch copy
		e2, s2 := e.clone(), st.Clone()
		f.phis(b, pred, e2)
		ok := true
		f.m.mute++
		for _, in := range b.Instrs[f.firstNonPhi(b) : len(b.Instrs)-1] {
			switch in.(type) {
			case *ssa.Call, *ssa.Store, *ssa.Next, *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers:
				if c, isCall := in.(*ssa.Call); isCall {
					if _, isB := c.Call.Value.(*ssa.Builtin); isB {
						f.simple(in, e2, s2)
						continue
					}
				}
				if nx, isNext := in.(*ssa.Next); isNext {
					if f.nextDecided(nx, e2, s2) {
						f.simple(in, e2, s2)
						continue
					}
				}
				ok = false
			case *ssa.DebugRef:
			default:
				if !f.simple(in, e2, s2) {
					ok = false
				}
			}
			if !ok {
				break
			}
		}
		f.m.mute--
		if ok {
			if s2.Eval(f.val(e2, ifi.Cond)) != 0 {
				decided = true
			}
		}
	}
	if decided && act.unroll <= f.m.Unroll {
		n := &loopAct{l: l, outer: act.outer, unroll: act.unroll + 1}
		f.phis(b, pred, e)
		f.block(b, e, st, n, f.firstNonPhi(b))
		return
	}
	f.fixLoop(b, pred, e, st, &loopAct{l: l, outer: act.outer})
}

// block interprets instructions of b from index i.
func (f *frame) block(b *ssa.BasicBlock, e *env, st *State, act *loopAct, i int) {
	for ; i < len(b.Instrs); i++ {
		if !f.step() {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			c := f.val(e, in.Cond)
			ev := st.Eval(c)
			if ev >= 0 {
				s2, e2 := st, e
				if ev == 0 {
					s2, e2 = st.Clone(), e.clone()
				}
				if s2.Assume(c, true) {
					f.enter(b.Succs[0], b, e2, s2, act)
				}
			}
			if ev <= 0 {
				if st.Assume(c, false) {
					f.enter(b.Succs[1], b, e, st, act)
				}
			}
			return
		case *ssa.Jump:
			f.enter(b.Succs[0], b, e, st, act)
			return
		case *ssa.Return:
			if f.discarded(act) {
				return
			}
			var r *Term
			switch len(in.Results) {
			case 0:
			case 1:
				r = f.val(e, in.Results[0])
			default:
				rs := make([]*Term, len(in.Results))
				for k, v := range in.Results {
					rs[k] = f.val(e, v)
				}
				r = Tuple(rs...)
			}
			f.m.Paths++
			f.outs = append(f.outs, Outcome{St: st, Ret: r})
			return
		case *ssa.Panic:
			f.panic(e, st, f.val(e, in.X), act)
			return
		case *ssa.RunDefers:
			f.runDefers(e, st, nil, act, func(s *State, p *Term) {
				e2 := e.clone()
				e2.defers = nil
				if p != nil {
					f.panicDone(e2, s, p, act)
					return
				}
				f.block(b, e2, s, act, i+1)
			})
			return
		case *ssa.Call:
			if f.isSimpleCall(in) {
				outs := f.builtin(in.Call.Value.(*ssa.Builtin), f.args(e, in.Call.Args), in, e, st)
				if outs == nil {
					return
				}
				if len(outs) == 1 && outs[0].Panic == nil {
					st = outs[0].St
					if outs[0].Ret != nil {
						e.v[in] = outs[0].Ret
					}
					continue
				}
				f.cont(outs, in, b, e, act, i)
				return
			}
			outs := f.doCall(&in.Call, in, e, st)
			f.cont(outs, in, b, e, act, i)
			return
		case *ssa.Defer:
			d := deferred{}
			if bl, ok := in.Call.Value.(*ssa.Builtin); ok {
				d.bltn = bl
				d.args = f.args(e, in.Call.Args)
			} else {
				d.call = f.resolve(&in.Call, in, e, st)
			}
			e.defers = append(e.defers[:len(e.defers):len(e.defers)], d)
		case *ssa.Go:
			f.m.Undecide("go statement in %s", f.fn)
		case *ssa.Next:
			f.next(in, b, e, st, act, i)
			return
		case *ssa.TypeAssert:
			f.typeAssert(in, b, e, st, act, i)
			return
		case *ssa.Lookup, *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Store, *ssa.MapUpdate,
			*ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc,
			*ssa.Extract, *ssa.Range, *ssa.DebugRef, *ssa.MakeChan, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
			if cond := f.panicCond(in, e, st); cond != nil {
				// cond: the operation is fine
				switch st.Eval(cond) {
				case 1:
				case -1:
					if f.m.OnRuntimePanic != nil {
						f.m.OnRuntimePanic(f.m, st, in, "always fails")
					}
					f.panic(e, st, runtimeErr(in), act)
					return
				default:
					if f.m.OnRuntimePanic != nil {
						f.m.OnRuntimePanic(f.m, st, in, cond.String())
					}
					if f.m.RuntimePanics {
						s2, e2 := st.Clone(), e.clone()
						if s2.Assume(cond, false) {
							f.panic(e2, s2, runtimeErr(in), act)
						}
					}
					if !st.Assume(cond, true) {
						return
					}
				}
			}
			if lk, ok := in.(*ssa.Lookup); ok {
				if f.lookup(lk, b, e, st, act, i) {
					return
				}
				continue
			}
			if !f.simple(in, e, st) {
				f.m.Undecide("unsupported instruction %s in %s", in, f.fn)
				return
			}
		default:
			f.m.Undecide("unsupported instruction %T in %s", in, f.fn)
			return
		}
	}
}

func runtimeErr(in ssa.Instruction) *Term {
	return App("errnew", TAny, NamedSym("runtime error", TAny))
}

// cont continues after a call with each outcome.
func (f *frame) cont(outs []Outcome, in ssa.Value, b *ssa.BasicBlock, e *env, act *loopAct, i int) {
	for k, o := range outs {
		e2 := e
		if k < len(outs)-1 {
			e2 = e.clone()
		}
		if o.Panic != nil {
			f.panic(e2, o.St, o.Panic, act)
			continue
		}
		if o.Ret != nil {
			e2.v[in] = o.Ret
		}
		f.block(b, e2, o.St, act, i+1)
	}
}

func (f *frame) discarded(act *loopAct) bool {
	for a := act; a != nil; a = a.outer {
		if a.discard {
			return true
		}
	}
	return false
}

// panic unwinds this frame.
func (f *frame) panic(e *env, st *State, v *Term, act *loopAct) {
	if f.discarded(act) {
		return
	}
	f.runDefers(e, st, v, act, func(s *State, p *Term) {
		e2 := e.clone()
		e2.defers = nil
		if p != nil {
			f.panicDone(e2, s, p, act)
			return
		}
		// recovered: control continues at the recover block
		if f.fn.Recover != nil {
			f.block(f.fn.Recover, e2, s, nil, 0)
			return
		}
		var r *Term
		res := f.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			r = Zero(res.At(0).Type())
		default:
			var rs []*Term
			for k := 0; k < res.Len(); k++ {
				rs = append(rs, Zero(res.At(k).Type()))
			}
			r = Tuple(rs...)
		}
		f.outs = append(f.outs, Outcome{St: s, Ret: r})
	})
}

func (f *frame) panicDone(e *env, st *State, v *Term, act *loopAct) {
	f.m.Paths++
	f.outs = append(f.outs, Outcome{St: st, Panic: v})
}

// runDefers runs the deferred calls, newest first; k receives the in-flight
// panic (nil when none).
func (f *frame) runDefers(e *env, st *State, pv *Term, act *loopAct, k func(*State, *Term)) {
	var rec func(n int, s *State, p *Term)
	rec = func(n int, s *State, p *Term) {
		if n == 0 {
			delete(s.Panics, f.id)
			k(s, p)
			return
		}
		d := e.defers[n-1]
		if p != nil {
			s.Panics[f.id] = p
		} else {
			delete(s.Panics, f.id)
		}
		var outs []Outcome
		if d.bltn != nil {
			outs = f.builtin(d.bltn, d.args, nil, e, s)
		} else {
			outs = f.m.invoke(d.call, s, f.id)
		}
		for _, o := range outs {
			np := o.St.Panics[f.id]
			if o.Panic != nil {
				np = o.Panic
			}
			rec(n-1, o.St, np)
		}
	}
	rec(len(e.defers), st, pv)
}

func (f *frame) args(e *env, vs []ssa.Value) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = f.val(e, v)
	}
	return out
}

// val evaluates an operand.
func (f *frame) val(e *env, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return FuncT(v)
	case *ssa.Global:
		return GlobalT(v)
	case *ssa.Builtin:
		return App("builtin:"+v.Name(), v.Type())
	}
	if t, ok := e.v[v]; ok {
		return t
	}
	t := NewSym("undef."+v.Name(), v.Type())
	e.v[v] = t
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return Zero(c.Type())
	}
	return ConstT(c.Value, c.Type())
}

func (f *frame) isSimpleCall(in *ssa.Call) bool {
	_, ok := in.Call.Value.(*ssa.Builtin)
	return ok
}

// resolve finds the callee of a call.
func (f *frame) resolve(c *ssa.CallCommon, in ssa.Instruction, e *env, st *State) *CallInfo {
	ci := &CallInfo{Instr: in, Caller: f.fn, Sig: c.Signature(), Depth: len(f.m.fnStack)}
	if c.IsInvoke() {
		recv := f.val(e, c.Value)
		args := f.args(e, c.Args)
		dt := st.KnownType(recv)
		if dt != nil {
			fn := MethodOf(f.m.Prog, dt, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				rv := Unbox(recv, dt)
				ci.Fn = fn
				ci.Args = append([]*Term{rv}, args...)
				ci.Method = c.Method
				return ci
			}
		}
		ci.Method = c.Method
		ci.Recv = recv
		ci.Args = args
		return ci
	}
	ci.Args = f.args(e, c.Args)
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := f.val(e, mc)
			ci.FnTerm = t
			ci.Fn = fn
			return ci
		}
		ci.Fn = fn
		return ci
	}
	ft := f.val(e, c.Value)
	ci.FnTerm = ft
	if ft.K == KFunc || ft.K == KClosure {
		ci.Fn = ft.Fn
	}
	return ci
}

// Unbox extracts the dynamic value of an interface.
func Unbox(x *Term, t types.Type) *Term {
	if x.K == KIface {
		return x.Args[0]
	}
	return App("unbox", t, x)
}

func (f *frame) doCall(c *ssa.CallCommon, in *ssa.Call, e *env, st *State) []Outcome {
	ci := f.resolve(c, in, e, st)
	return f.m.invoke(ci, st, -1)
}

// Invoke performs a call from a hook.
func (m *Machine) Invoke(ci *CallInfo, st *State) []Outcome { return m.invoke(ci, st, -1) }

// CallValue calls a function value.
func (m *Machine) CallValue(fn *Term, args []*Term, st *State) []Outcome {
	ci := &CallInfo{FnTerm: fn, Args: args}
	if fn.K == KFunc || fn.K == KClosure {
		ci.Fn = fn.Fn
		ci.Sig = fn.Fn.Signature
	}
	return m.invoke(ci, st, -1)
}

func (m *Machine) invoke(ci *CallInfo, st *State, panicFrame int) []Outcome {
	m.Calls++
	if m.Hook != nil {
		if outs, ok := m.Hook(m, st, ci); ok {
			return outs
		}
	}
	if ci.Fn != nil {
		fn := ci.Fn
		if fn.Pkg == nil && fn.Synthetic != "" || fn.Pkg != nil && InRepo(fn.Pkg.Pkg.Path()) || fn.Parent() != nil {
			if len(fn.Blocks) > 0 {
				n := 0
				for _, x := range m.fnStack {
					if x == fn {
						n++
					}
				}
				if n > 4 || len(m.fnStack) > m.MaxDepth {
					m.Undecide("recursion through %s is not modelled", fn)
					return m.opaque(ci, st)
				}
				var binds []*Term
				if ci.FnTerm != nil && ci.FnTerm.K == KClosure {
					binds = ci.FnTerm.Args
				}
				return m.call(fn, ci.Args, binds, st, panicFrame)
			}
		}
		if outs, ok := m.external(ci, st); ok {
			return outs
		}
	}
	if ci.Method != nil && ci.Recv != nil {
		if outs, ok := m.extInvoke(ci, st); ok {
			return outs
		}
	}
	return m.opaque(ci, st)
}

// opaque models an unknown call: results are arbitrary.
func (m *Machine) opaque(ci *CallInfo, st *State) []Outcome {
	if os.Getenv("SA_TRACE") != "" && m.mute == 0 {
		fmt.Fprintf(os.Stderr, "opaque call %s recv=%v fn=%v\n", ci.Name(), ci.Recv, ci.FnTerm)
	}
	return []Outcome{{St: st, Ret: m.FreshResults(ci, st, "ret")}}
}

// FreshResults makes arbitrary results for a call.
func (m *Machine) FreshResults(ci *CallInfo, st *State, name string) *Term {
	if ci.Sig == nil {
		return nil
	}
	return FreshTuple(st, ci.Sig.Results(), name)
}

// FreshTuple makes arbitrary values of a result tuple.
func FreshTuple(st *State, res *types.Tuple, name string) *Term {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return FreshVal(st, name, res.At(0).Type())
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, FreshVal(st, name, res.At(i).Type()))
	}
	return Tuple(rs...)
}

// FreshVal makes an arbitrary value of a type.
func FreshVal(st *State, name string, t types.Type) *Term {
	if s := structOf(t); s != nil {
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = FreshVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return StructT(t, fs)
	}
	return st.intro(NewSym(name, t))
}

// panicCond returns the condition under which a potentially panicking
// instruction is fine; nil when it cannot panic.
func (f *frame) panicCond(in ssa.Instruction, e *env, st *State) *Term {
	nonnil := func(v ssa.Value) *Term {
		t := f.val(e, v)
		switch st.evalNil(t) {
		case -1:
			return nil
		case 1:
			return Bool(false)
		}
		return Not(App("isnil", TBool, t))
	}
	inRange := func(idx, n *Term) *Term {
		a := GE0(LinOf(idx))
		b := GE0(LinOf(n).add(LinOf(idx), RI(-1)).add(linConst(1), RI(-1)))
		if v, ok := BoolVal(a); ok && v {
			return b
		}
		return App("and", TBool, a, b)
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return nonnil(in.X)
		}
	case *ssa.FieldAddr:
		return nonnil(in.X)
	case *ssa.Store:
		return nonnil(in.Addr)
	case *ssa.MapUpdate:
		return nonnil(in.Map)
	case *ssa.IndexAddr:
		idx := f.val(e, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			return inRange(idx, st.Len(f.val(e, in.X)))
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return inRange(idx, Int(at.Len()))
			}
		}
	case *ssa.Index:
		idx := f.val(e, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			return inRange(idx, Int(u.Len()))
		case *types.Basic:
			return inRange(idx, st.Len(f.val(e, in.X)))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			return inRange(f.val(e, in.Index), st.Len(f.val(e, in.X)))
		}
	case *ssa.Slice:
		x := f.val(e, in.X)
		var n, c *Term
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			_, _, n, c = st.SliceParts(x)
		case *types.Basic:
			n = st.Len(x)
			c = n
		case *types.Pointer:
			n = Int(u.Elem().Underlying().(*types.Array).Len())
			c = n
		}
		lo, hi := Int(0), n
		if in.Low != nil {
			lo = f.val(e, in.Low)
		}
		if in.High != nil {
			hi = f.val(e, in.High)
		}
		r := GE0(LinOf(lo))
		for _, g := range []*Term{GE0(LinOf(hi).add(LinOf(lo), RI(-1))), GE0(LinOf(c).add(LinOf(hi), RI(-1)))} {
			if v, ok := BoolVal(r); ok && v {
				r = g
			} else if v, ok := BoolVal(g); !ok || !v {
				r = App("and", TBool, r, g)
			}
		}
		if v, ok := BoolVal(r); ok && v {
			return nil
		}
		return r
	case *ssa.BinOp:
		if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.X.Type()) {
			return Not(EQ0(LinOf(f.val(e, in.Y))))
		}
	}
	return nil
}

// simple interprets an instruction without control effects.
func (f *frame) simple(in ssa.Instruction, e *env, st *State) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := NewObj(allocName(in), deref(in.Type()))
		e.v[in] = o
	case *ssa.UnOp:
		x := f.val(e, in.X)
		switch in.Op {
		case token.MUL:
			if f.m.OnLoad != nil {
				f.m.OnLoad(f.m, st, x, in)
			}
			e.v[in] = st.Load(x, in.Type())
		case token.SUB:
			if isInteger(in.Type()) {
				e.v[in] = linTerm(LinOf(x).scale(RI(-1)), in.Type())
			} else if x.K == KConst {
				e.v[in] = ConstT(constant.UnaryOp(token.SUB, x.Val, 0), in.Type())
			} else {
				e.v[in] = App("neg", in.Type(), x)
			}
		case token.NOT:
			e.v[in] = Not(x)
		case token.XOR:
			e.v[in] = App("compl", in.Type(), x)
		default:
			return false
		}
	case *ssa.BinOp:
		e.v[in] = st.BinOp(in.Op, f.val(e, in.X), f.val(e, in.Y), in.X.Type(), in.Type())
	case *ssa.FieldAddr:
		e.v[in] = FieldAddr(f.val(e, in.X), in.Field, in.Type())
	case *ssa.Field:
		e.v[in] = st.Field(f.val(e, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		x := f.val(e, in.X)
		idx := f.val(e, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			arr, lo, _, _ := st.SliceParts(x)
			e.v[in] = IndexAddr(arr, Add(lo, idx), in.Type())
		} else {
			e.v[in] = IndexAddr(x, idx, in.Type())
		}
	case *ssa.Index:
		x, idx := f.val(e, in.X), f.val(e, in.Index)
		if s, ok := StrVal(x); ok {
			if k, ok := IntVal(idx); ok && k >= 0 && int(k) < len(s) {
				e.v[in] = ConstT(constInt(int64(s[k])), in.Type())
				return true
			}
		}
		if x.K == KApp && x.Name == "arr" {
			if k, ok := IntVal(idx); ok && k >= 0 && int(k) < len(x.Args) {
				e.v[in] = x.Args[k]
				return true
			}
		}
		e.v[in] = st.StrAt(x, idx, in.Type())
	case *ssa.Slice:
		e.v[in] = f.slice(in, e, st)
	case *ssa.Store:
		a, v := f.val(e, in.Addr), f.val(e, in.Val)
		if f.m.OnStore != nil {
			f.m.OnStore(f.m, st, a, v, in)
		}
		st.Store(a, v, in.Val.Type())
	case *ssa.MapUpdate:
		f.mapUpdate(f.val(e, in.Map), f.val(e, in.Key), f.val(e, in.Value), in, st)
	case *ssa.Convert:
		e.v[in] = st.Convert(f.val(e, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		e.v[in] = retype(f.val(e, in.X), in.Type())
	case *ssa.ChangeInterface:
		e.v[in] = f.val(e, in.X)
	case *ssa.MakeInterface:
		e.v[in] = Iface(in.X.Type(), f.val(e, in.X), in.Type())
	case *ssa.MakeClosure:
		e.v[in] = Closure(in.Fn.(*ssa.Function), f.args(e, in.Bindings))
	case *ssa.MakeSlice:
		elem := in.Type().Underlying().(*types.Slice).Elem()
		o := NewObj("makeslice", types.NewArray(elem, -1))
		e.v[in] = SliceT(in.Type(), o, Int(0), f.val(e, in.Len), f.val(e, in.Cap))
	case *ssa.MakeMap:
		e.v[in] = NewObj("map", in.Type())
	case *ssa.MakeChan:
		e.v[in] = NewObj("chan", in.Type())
	case *ssa.Extract:
		t := f.val(e, in.Tuple)
		if t.K == KTuple && in.Index < len(t.Args) {
			e.v[in] = t.Args[in.Index]
		} else {
			e.v[in] = st.intro(App(fmt.Sprintf("res%d", in.Index), in.Type(), t))
		}
	case *ssa.Range:
		e.v[in] = NewObj("range", types.Typ[types.Invalid])
		f.startRange(in, e, st)
	case *ssa.Next:
		f.nextKnown(in, e, st)
	case *ssa.Call:
		if bl, ok := in.Call.Value.(*ssa.Builtin); ok {
			outs := f.builtin(bl, f.args(e, in.Call.Args), in, e, st)
			if len(outs) != 1 || outs[0].Panic != nil {
				return false
			}
			if outs[0].Ret != nil {
				e.v[in] = outs[0].Ret
			}
			return true
		}
		return false
	default:
		return false
	}
	return true
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return a.Name()
}

func retype(x *Term, t types.Type) *Term {
	switch x.K {
	case KStruct:
		return StructT(t, x.Args)
	case KSlice:
		return SliceT(t, x.Args[0], x.Args[1], x.Args[2], x.Args[3])
	}
	return x
}

func (f *frame) slice(in *ssa.Slice, e *env, st *State) *Term {
	x := f.val(e, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = f.val(e, in.Low)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		hi := st.Len(x)
		if in.High != nil {
			hi = f.val(e, in.High)
		}
		return st.Substr(x, lo, hi)
	case *types.Slice:
		arr, off, n, c := st.SliceParts(x)
		hi := n
		if in.High != nil {
			hi = f.val(e, in.High)
		}
		nc := Sub(c, lo)
		if in.Max != nil {
			nc = Sub(f.val(e, in.Max), lo)
		}
		if x.K == KNil {
			return x
		}
		return SliceT(in.Type(), arr, Add(off, lo), Sub(hi, lo), nc)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		hi := n
		if in.High != nil {
			hi = f.val(e, in.High)
		}
		return SliceT(in.Type(), x, lo, Sub(hi, lo), Sub(n, lo))
	}
	return NewSym("slice", in.Type())
}

// Substr is x[lo:hi] for strings.
func (s *State) Substr(x, lo, hi *Term) *Term {
	n := LenAtom(x)
	if l, ok := IntVal(lo); ok && l == 0 && s.EQ(hi, n) {
		return x
	}
	if v, ok := StrVal(x); ok {
		a, ok1 := IntVal(lo)
		b, ok2 := IntVal(hi)
		if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(v) {
			return Str(v[a:b])
		}
	}
	if x.K == KApp && x.Name == "substr" {
		return App("substr", TString, x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi))
	}
	return App("substr", TString, x, lo, hi)
}

// StrAt is x[i] for strings.
func (s *State) StrAt(x, i *Term, t types.Type) *Term {
	if v, ok := StrVal(x); ok {
		if k, ok := IntVal(i); ok && k >= 0 && int(k) < len(v) {
			return ConstT(constInt(int64(v[k])), t)
		}
	}
	if x.K == KApp && x.Name == "substr" {
		return s.StrAt(x.Args[0], Add(x.Args[1], i), t)
	}
	return s.intro(App("strat", t, x, i))
}

// Convert models a value conversion.
// ExactConv keeps integer conversions that may change the value as terms.
var ExactConv bool

// widens reports whether every value of an integer type is kept by a conversion.
func widens(from, to types.Type) bool {
	size := func(t types.Type) (int, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 64, true
		}
		n := 64
		switch b.Kind() {
		case types.Int8, types.Uint8:
			n = 8
		case types.Int16, types.Uint16:
			n = 16
		case types.Int32, types.Uint32:
			n = 32
		}
		return n, b.Info()&types.IsUnsigned == 0
	}
	a, as := size(from)
	b, bs := size(to)
	if as == bs {
		return b >= a
	}
	return !as && b > a
}

func (s *State) Convert(x *Term, from, to types.Type) *Term {
	if x.K == KConst {
		switch {
		case isInteger(to) && x.Val.Kind() == constant.Int, isFloat(to) && (x.Val.Kind() == constant.Int || x.Val.Kind() == constant.Float):
			if isInteger(to) {
				return ConstT(x.Val, to)
			}
			return ConstT(constant.ToFloat(x.Val), to)
		case isString(to) && isInteger(from):
			if v, ok := IntVal(x); ok {
				return Str(string(rune(v)))
			}
		case isString(to) && isString(from):
			return x
		}
	}
	if isInteger(from) && isInteger(to) {
		if ExactConv && !widens(from, to) {
			return s.intro(App("conv:"+typeName(from.Underlying())+"->"+typeName(to.Underlying()), to, x))
		}
		return x // no wrap-around assumed
	}
	if isString(from) && isString(to) {
		return x
	}
	if (isFloat(from) && isFloat(to) || isComplex(from) && isComplex(to)) && types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	fs, ts := typeName(from.Underlying()), typeName(to.Underlying())
	if isInteger(from) && isFloat(to) {
		fs = "int" // the value alone matters
	}
	if isString(to) {
		if _, ok := from.Underlying().(*types.Slice); ok {
			// string(bytes): content snapshot
			if x.K == KApp && x.Name == "bytesof" {
				return x.Args[0]
			}
			arr, lo, n, _ := s.SliceParts(x)
			r := App("strof", TString, arr, lo, n)
			s.Lin.AddEQ0(LinOf(LenAtom(r)).add(LinOf(n), RI(-1)))
			if b := s.concreteBytes(x); b != nil {
				return Str(*b)
			}
			return r
		}
	}
	if st, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		_ = st
		r := App("bytesof", to, x)
		s.Lin.AddEQ0(LinOf(App("len", TInt, r)).add(LinOf(s.Len(x)), RI(-1)))
		return r
	}
	return s.intro(App("conv:"+fs+"->"+ts, to, x))
}

func (s *State) concreteBytes(x *Term) *string {
	if x.K != KSlice {
		return nil
	}
	n, ok := IntVal(x.Args[2])
	if !ok || n > 256 {
		return nil
	}
	var b strings.Builder
	for i := int64(0); i < n; i++ {
		v := s.Load(IndexAddr(x.Args[0], AddK(x.Args[1], i), types.NewPointer(types.Typ[types.Byte])), types.Typ[types.Byte])
		k, ok := IntVal(v)
		if !ok {
			return nil
		}
		b.WriteByte(byte(k))
	}
	r := b.String()
	return &r
}

// BinOp models a binary operation.
func (s *State) BinOp(op token.Token, a, b *Term, opnd, res types.Type) *Term {
	if a.K == KConst && b.K == KConst && a.Val.Kind() == b.Val.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Bool(constant.Compare(a.Val, op, b.Val))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.Val.Kind() != constant.Bool && (a.Val.Kind() != constant.Int || op != token.SUB || true) {
				return ConstT(constant.BinaryOp(a.Val, op, b.Val), res)
			}
		case token.QUO, token.REM:
			if isInteger(opnd) {
				if k, ok := IntVal(b); ok && k != 0 {
					o := op
					if op == token.QUO {
						o = token.QUO_ASSIGN
					}
					return ConstT(constant.BinaryOp(a.Val, o, b.Val), res)
				}
			}
		case token.SHL, token.SHR:
			if k, ok := IntVal(b); ok && k >= 0 && k < 63 {
				return ConstT(constant.Shift(a.Val, op, uint(k)), res)
			}
		}
	}
	if isInteger(opnd) {
		switch op {
		case token.ADD:
			return linTerm(LinOf(a).add(LinOf(b), RI(1)), res)
		case token.SUB:
			return linTerm(LinOf(a).add(LinOf(b), RI(-1)), res)
		case token.MUL:
			if k, ok := IntVal(a); ok {
				return linTerm(LinOf(b).scale(RI(k)), res)
			}
			if k, ok := IntVal(b); ok {
				return linTerm(LinOf(a).scale(RI(k)), res)
			}
			return App("mul", res, a, b)
		case token.SHL:
			if k, ok := IntVal(b); ok && k >= 0 && k < 31 {
				return linTerm(LinOf(a).scale(RI(1<<uint(k))), res)
			}
			return App("shl", res, a, b)
		case token.EQL:
			return EQ0(LinOf(a).add(LinOf(b), RI(-1)))
		case token.NEQ:
			return Not(EQ0(LinOf(a).add(LinOf(b), RI(-1))))
		case token.LSS:
			return GE0(LinOf(b).add(LinOf(a), RI(-1)).add(linConst(1), RI(-1)))
		case token.LEQ:
			return GE0(LinOf(b).add(LinOf(a), RI(-1)))
		case token.GTR:
			return GE0(LinOf(a).add(LinOf(b), RI(-1)).add(linConst(1), RI(-1)))
		case token.GEQ:
			return GE0(LinOf(a).add(LinOf(b), RI(-1)))
		}
		if op == token.AND {
			if k, ok := IntVal(b); ok && k == 0 {
				return ConstT(constInt(0), res)
			}
			if k, ok := IntVal(a); ok && k == 0 {
				return ConstT(constInt(0), res)
			}
			if a == b {
				return a
			}
		}
		if op == token.QUO || op == token.SHR || op == token.REM {
			return s.divLike(op, a, b, res)
		}
		return s.intro(App(op.String(), res, a, b))
	}
	switch op {
	case token.EQL:
		return s.Eq(a, b)
	case token.NEQ:
		return Not(s.Eq(a, b))
	case token.ADD:
		if isString(res) {
			return Concat(a, b)
		}
	case token.GTR:
		return App("<", TBool, b, a)
	case token.GEQ:
		return App("<=", TBool, b, a)
	case token.LSS, token.LEQ:
		return App(op.String(), TBool, a, b)
	}
	return App(op.String(), res, a, b)
}

func (s *State) divLike(op token.Token, a, b *Term, res types.Type) *Term {
	t := s.intro(App(op.String(), res, a, b))
	k, ok := IntVal(b)
	if !ok {
		return t
	}
	if op == token.SHR {
		if k < 0 || k > 30 {
			return t
		}
		k = 1 << uint(k)
	}
	if k > 0 && s.Lin.EntailsGE0(LinOf(a)) {
		if op == token.REM {
			s.Lin.AddGE0(LinOf(t))
			s.Lin.AddGE0(linConst(k-1).add(LinOf(t), RI(-1)))
			return t
		}
		// k*t <= a <= k*t+k-1
		s.Lin.AddGE0(LinOf(a).add(LinOf(t), RI(-k)))
		s.Lin.AddGE0(LinOf(t).scale(RI(k)).add(linConst(k-1), RI(1)).add(LinOf(a), RI(-1)))
	}
	return t
}

// Concat is string concatenation (constants folded, right-nested).
func Concat(a, b *Term) *Term {
	if x, ok := StrVal(a); ok {
		if x == "" {
			return b
		}
		if y, ok := StrVal(b); ok {
			return Str(x + y)
		}
	}
	if y, ok := StrVal(b); ok && y == "" {
		return a
	}
	if a.K == KApp && a.Name == "concat" {
		return Concat(a.Args[0], Concat(a.Args[1], b))
	}
	if b.K == KApp && b.Name == "concat" {
		if x, ok := StrVal(a); ok {
			if y, ok := StrVal(b.Args[0]); ok {
				return Concat(Str(x+y), b.Args[1])
			}
		}
	}
	return App("concat", TString, a, b)
}
