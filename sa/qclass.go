package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/sa/ai"
)

func init() {
	register("Q07", "class and new expressions, member references, method calls and the assignment of members are interpreted together on objects of one class", checkClasses)
}

// method is one method of a class expression.
type method struct {
	name     string
	params   []string
	variadic bool
	body     *T
	hasBody  bool
}

// methods reads the methods of a class expression.
func methodsOf(d deriv, names []string) (ms []method, texts []string, ok bool) {
	parts := strings.Split(" "+d.text, " fn ")
	var cur *method
	for _, e := range d.ev {
		switch e.mark {
		case "name":
			if cur == nil {
				if len(ms) >= len(names) {
					return nil, nil, false
				}
				ms = append(ms, method{name: names[len(ms)]})
				cur = &ms[len(ms)-1]
				texts = append(texts, cur.name)
			} else {
				p := string(rune('a' + len(cur.params)))
				cur.params = append(cur.params, p)
				texts = append(texts, p)
			}
		case "_code":
			cur.hasBody = !e.empty
		case "mfn":
			cur = nil
		}
	}
	if len(parts) != len(ms)+1 {
		return nil, nil, false
	}
	for i := range ms {
		ms[i].variadic = strings.Contains(parts[i+1], "...")
		if ms[i].variadic && len(ms[i].params) == 0 {
			return nil, nil, false
		}
	}
	return ms, texts, true
}

// member evaluates o.name; it yields the value, or fails.
func (h *qclH) member(ip, o *T, name string) (v *T, fails bool) {
	fn := h.handler("mref")
	if fn == nil {
		return nil, false
	}
	st := h.st.Clone()
	h.pushV(st, o)
	old := h.st
	h.st = st
	args, ok := h.argsFor(fn, ip, ai.Str(name))
	h.st = old
	if !ok {
		return nil, false
	}
	n := 0
	for _, r := range h.m.CallValue(fn, args, st) {
		if r.Panic != nil || r.Ret != nil && r.St.Eval(r.St.IsNil(r.Ret)) < 0 {
			fails = true
			continue
		}
		n++
		v = h.top(r.St, 0)
		h.m.Check(r.St, r.St.EQ(h.depth(r.St), ai.AddK(h.depth(h.st), 1)), fnPos(fn), "a member reference leaves %s values", ai.Sub(h.depth(r.St), h.depth(h.st)))
		h.st = r.St
		h.st.Store(h.stk, st.Load(h.stk, h.stkT), h.stkT)
		h.dropV(1)
	}
	if n > 1 || n == 1 && fails {
		return nil, false
	}
	return v, fails
}

// dropV removes values from the stack.
func (h *qclH) dropV(k int64) {
	s := h.st.Load(h.stk, h.stkT)
	arr, lo, n, cp := h.st.SliceParts(s)
	h.st.Store(h.stk, ai.SliceT(h.stkT, arr, lo, ai.AddK(n, -k), cp), h.stkT)
}

// setMember runs the function bound to the assignment of members.
func (h *qclH) setMember(o *T, name string, v *T) (fails, ok bool) {
	fn := globalVal(h.c, h.base, relSpec, "Set")
	if fn == nil || fn.Fn == nil {
		h.c.Missing("the function bound to Set")
		return false, false
	}
	st := h.st.Clone()
	args := h.list(st, ai.Iface(ai.TString, ai.Str(name), ai.TAny), v)
	n := 0
	for _, r := range h.m.CallValue(fn, []*T{o, args}, st) {
		if r.Panic != nil {
			fails = true
			continue
		}
		n++
		h.st = r.St
	}
	return fails, n <= 1 && !(n == 1 && fails)
}

// makeNew evaluates a new expression; the body of _init is an event.
func (h *qclH) makeNew(ip *T, cls string, cs *callSpec, d deriv, vals []*T) *T {
	fn := h.handler("new")
	h.names = []string{cls}
	defer func() { h.names = nil }()
	d0 := h.depth(h.st)
	_, _, ok := h.play(d, ip, func(i int, _ string) *T { return vals[i] }, false)
	if !ok || fn == nil {
		return nil
	}
	args, ok := h.argsFor(fn, ip, nil)
	if !ok {
		return nil
	}
	pos := fnPos(fn)
	h.m.Key = func(st *S) string {
		if p := st.Ghost["phase"]; p != nil {
			return p.String()
		}
		return ""
	}
	defer func() { h.m.Key = nil; h.onEval = nil }()
	h.st.Ghost["phase"] = ai.Str("")
	delete(h.st.Ghost, "calc")
	if cs.body != nil {
		h.onCall(cs)
		cs.seen = 0
	}
	var after *S
	n := 0
	for _, r := range h.m.CallValue(fn, args, h.st) {
		st := r.St
		ph, _ := ai.StrVal(st.Ghost["phase"])
		failed := r.Panic != nil || r.Ret != nil && st.Eval(st.IsNil(r.Ret)) < 0
		if len(cs.params) > 0 && !cs.fits() {
			h.m.Check(st, failed && ph == "", pos, "%s: a wrong number of arguments for _init is not rejected", cs.what)
			continue
		}
		if cs.body != nil {
			pend := st.Ghost["pending"]
			if !h.m.Check(st, ph != "", pos, "%s: _init is not executed", cs.what) {
				continue
			}
			if strings.HasSuffix(ph, "=fails") || st.Eval(st.IsNil(pend)) <= 0 {
				v := r.Panic
				if v == nil {
					v = r.Ret
				}
				h.m.Check(st, failed && v != nil && samePanic(st, v, pend), pos, "%s: after %q the failure of _init is not passed on", cs.what, ph)
				continue
			}
		}
		if !h.m.Check(st, !failed, pos, "%s: fails", cs.what) {
			continue
		}
		n++
		h.m.Check(st, st.EQ(h.depth(st), ai.AddK(d0, 1)), pos, "%s: leaves %s values", cs.what, ai.Sub(h.depth(st), d0))
		o := h.top(st, 0)
		if cs.body != nil {
			h.m.Check(st, st.Ghost["this"] != nil && st.Same(o, st.Ghost["this"]), pos, "%s: the object is not the one that _init was called on", cs.what)
		}
		if after == nil {
			after = st
		}
	}
	if len(cs.params) > 0 && !cs.fits() {
		return nil
	}
	h.m.Check(h.st, n > 0, pos, "%s: never succeeds", cs.what)
	if after == nil {
		return nil
	}
	h.st = after
	o := h.top(h.st, 0)
	h.dropV(1)
	return o
}

func checkClasses(c *Ctx) {
	c.Rule("a class holds exactly the methods of its expression; new makes an object of its own without variables and calls _init, if the class has one, on it with the arguments; o.x is the variable x of o, else the method x that has o as this, else an error; setting a variable of an object changes that object only and is an error for the name of a method; methods are evaluated as functions of the scope of the class; o.x of a map or module is the value of its key x, an error if it has none")
	h := newQclH(c)
	if h == nil || h.grammar() == nil {
		return
	}
	g := h.grammar()
	classes, news := g.endingWith("class", 2), g.endingWith("new", 2)
	if len(classes) == 0 || len(news) == 0 {
		c.Missing("class and new expressions in the grammar")
		return
	}
	two := 0
	done := map[string]bool{}
	ncls, nnew, ncall := 0, 0, 0
	for _, d := range classes {
		probe, _, ok := methodsOf(d, []string{"m", "n"})
		key := strings.ReplaceAll(d.text, "} ;", "}")
		if !ok || done[key] && c.Tier != "thorough" {
			continue
		}
		done[key] = true
		sets := [][]string{{"m", "n"}, {"_init", "n"}}
		if len(probe) == 0 {
			sets = sets[:1]
		}
		if len(probe) == 2 {
			if two++; two%11 != 1 && c.Tier != "thorough" {
				continue
			}
			sets = append(sets, []string{"m", "_init"})
		}
		for _, names := range sets {
			ms, texts, _ := methodsOf(d, names)
			ncls++
			ini := false
			for i := range ms {
				ini = ini || ms[i].name == "_init"
			}
			// new (C) and new C have the same marks: the forms take turns
			byArgs := map[int][]deriv{}
			for _, nd := range news {
				n := 0
				for _, e := range nd.ev {
					if e.mark == "" {
						n++
					}
				}
				byArgs[n] = append(byArgs[n], nd)
			}
			for nargs := 0; len(byArgs[nargs]) > 0; nargs++ {
				if !ini && nargs != ncls%len(byArgs) && c.Tier != "thorough" {
					continue
				}
				nd := byArgs[nargs][ncls%len(byArgs[nargs])]
				nnew++
				ncall += h.classCase(d, nd, ms, texts, nargs)
				h.absorb("classes")
			}
		}
	}
	h.notClass(news[0])
	h.absorb("classes")
	h.mapMembers()
	h.absorb("members of maps")
	c.Case("%d class expressions, %d objects, %d method calls", ncls, nnew, ncall)
}

// mapMembers: o.x of a map (which modules are, too) is the value of the key x,
// and an error if there is none.
func (h *qclH) mapMembers() {
	for _, et := range []types.Type{ai.TAny, ai.TInt, ai.TString} {
		h.reset()
		ip := h.scope("scope", nil)
		h.noVar(ip, "x")
		mt := types.NewMap(ai.TString, et)
		mo := ai.NewObj("map", mt)
		v, w := ai.NewSym("value", et), ai.NewSym("other", et)
		h.st.MapStore(mo, ai.Str("x"), v, mt)
		h.st.MapStore(mo, ai.Str("X"), w, mt)
		for _, nm := range []string{"y", "Y"} {
			h.st.SetAbsent(mo, ai.Str(nm), mt)
		}
		ch := &contH{c: h.c, m: h.m}
		h.m.Hook = func(m *ai.Machine, st *S, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if out, ok := h.hook(m, st, ci); ok {
				return out, true
			}
			return ch.hook(m, st, ci)
		}
		o := ai.Iface(mt, mo, ai.TAny)
		for _, nm := range []string{"x", "X"} {
			want := v
			if nm == "X" {
				want = w
			}
			got, fails := h.member(ip, o, nm)
			h.m.Check(h.st, got != nil && !fails && sameResult(h.st, got, boxedAs(want, et)), token.NoPos, "the member %s of a %s is %v instead of the value of that key", nm, mt, got)
		}
		got, fails := h.member(ip, o, "y")
		h.m.Check(h.st, got == nil && fails, token.NoPos, "the member y of a %s without that key is %v instead of an error", mt, got)
		h.absorb("members of maps")
	}
}

// notClass: new with something that is no class fails.
func (h *qclH) notClass(d deriv) {
	h.reset()
	fn := h.handler("new")
	ip := h.scope("scope", nil)
	h.setVar(ip, "C", intBox(1))
	h.names = []string{"C"}
	_, _, ok := h.play(d, ip, func(int, string) *T { return intBox(2) }, false)
	h.names = nil
	if !ok || fn == nil {
		return
	}
	args, _ := h.argsFor(fn, ip, nil)
	for _, r := range h.m.CallValue(fn, args, h.st) {
		h.m.Check(r.St, r.Panic != nil || r.Ret != nil && r.St.Eval(r.St.IsNil(r.Ret)) < 0, fnPos(fn), "new with a value that is no class does not fail")
	}
}

func (h *qclH) classCase(d, nd deriv, ms []method, texts []string, nargs int) int {
	h.reset()
	outer := h.scope("outer", nil)
	ip := h.scope("scope", outer)
	for _, s := range []*T{outer, ip} {
		for _, nm := range []string{"this", "a", "b", "x"} {
			h.noVar(s, nm)
		}
	}
	h.names = append([]string{}, texts...)
	codes, _, ok := h.play(d, ip, nil, true)
	h.names = nil
	if !ok {
		return 0
	}
	if !h.m.Check(h.st, len(codes) == len(ms), token.NoPos, "%s: %d parts are captured", d.text, len(codes)) || !h.kept(h.st, token.NoPos, d.text, 1) {
		return 0
	}
	for i := range ms {
		if !codes[i].empty {
			ms[i].body = codes[i].t
		}
	}
	cls := h.top(h.st, 0)
	h.dropV(1)
	user := h.scope("user", outer)
	h.setVar(user, "C", cls)
	for _, nm := range []string{"this", "a", "b", "x"} {
		h.noVar(user, nm)
	}
	others := []*T{outer, ip, user}
	var ini *method
	for i := range ms {
		if ms[i].name == "_init" {
			ini = &ms[i]
		}
	}
	var vals []*T
	for i := 0; i < nargs; i++ {
		vals = append(vals, ai.NewSym(desc("arg%d", i), ai.TAny))
	}
	ncs := func(n int) *callSpec {
		cs := &callSpec{plain: true, what: desc("%s of %s (object %d)", nd.text, d.text, n), def: ip, others: others}
		if ini != nil {
			cs.body, cs.variadic = ini.body, ini.variadic
			cs.params = append([]string{"this"}, ini.params...)
			cs.args = append([]*T{nil}, vals...)
		}
		return cs
	}
	o1 := h.makeNew(user, "C", ncs(1), nd, vals)
	if o1 == nil {
		return 0
	}
	o2 := h.makeNew(user, "C", ncs(2), nd, vals)
	if o2 == nil {
		return 0
	}
	what := desc("%s", d.text)
	h.m.Check(h.st, h.st.Eval(h.st.Eq(h.receiver(o1), h.receiver(o2))) < 0, token.NoPos, "%s: two objects are the same", what)
	calls := 0
	objs := []*T{o1, o2}
	bound := func(tag string) {
		for k, o := range objs {
			for i := range ms {
				m := &ms[i]
				w := desc("%s: method %s of object %d%s", what, m.name, k+1, tag)
				f, fails := h.member(user, o, m.name)
				if !h.m.Check(h.st, f != nil && !fails, token.NoPos, "%s: cannot be referred to", w) {
					continue
				}
				if tag != "" && k == 1 {
					continue
				}
				lens := []int{len(m.params)}
				if k == 0 && tag == "" {
					lens = []int{0, 1, 2, 3}
				}
				for _, na := range lens {
					var pass []*T
					for j := 0; j < na; j++ {
						pass = append(pass, ai.NewSym(desc("v%d", j), ai.TAny))
					}
					if pass == nil {
						pass = []*T{}
					}
					cs := &callSpec{plain: true, what: desc("%s with %d arguments", w, na), def: ip, body: m.body, variadic: m.variadic, others: others,
						params: append([]string{"this"}, m.params...), args: append([]*T{o}, pass...), pass: pass}
					old := h.st
					h.st = h.st.Clone()
					delete(h.st.Ghost, "calc")
					h.checkCall(f, cs)
					h.st = old
					calls++
				}
			}
			if v, fails := h.member(user, o, "x"); tag == "" {
				h.m.Check(h.st, v == nil && fails, token.NoPos, "%s: a new object already has a variable", what)
			}
		}
	}
	bound("")
	// methods of the class
	for i := range ms {
		m := &ms[i]
		f, fails := h.member(user, cls, m.name)
		w := desc("%s: method %s of the class", what, m.name)
		if !h.m.Check(h.st, f != nil && !fails, token.NoPos, "%s: cannot be referred to", w) {
			continue
		}
		args := []*T{o2}
		for range m.params {
			args = append(args, ai.NewSym("v", ai.TAny))
		}
		cs := &callSpec{plain: true, what: w, def: ip, body: m.body, variadic: m.variadic, others: others, params: append([]string{"this"}, m.params...), args: args}
		old := h.st
		h.st = h.st.Clone()
		delete(h.st.Ghost, "calc")
		h.checkCall(f, cs)
		h.st = old
		calls++
	}
	if v, fails := h.member(user, cls, "x"); true {
		h.m.Check(h.st, v == nil && fails, token.NoPos, "%s: the class has a member it does not define", what)
	}
	// variables of objects
	v1, v2 := ai.NewSym("first", ai.TAny), ai.NewSym("second", ai.TAny)
	step := func(o *T, v *T, want [2]*T, tag string) {
		fails, ok := h.setMember(o, "x", v)
		if !h.m.Check(h.st, ok && !fails, token.NoPos, "%s: %s: a variable cannot be set", what, tag) {
			return
		}
		for k, ob := range objs {
			got, fails := h.member(user, ob, "x")
			if want[k] == nil {
				h.m.Check(h.st, got == nil && fails, token.NoPos, "%s: %s: object %d has the variable of another one", what, tag, k+1)
				continue
			}
			h.m.Check(h.st, got != nil && !fails && h.st.Same(got, want[k]), token.NoPos, "%s: %s: the variable of object %d is %v", what, tag, k+1, got)
		}
	}
	step(o1, v1, [2]*T{v1, nil}, "setting a variable of the first object")
	step(o2, v2, [2]*T{v1, v2}, "then of the second one")
	step(o1, v2, [2]*T{v2, v2}, "then again of the first one")
	for i := range ms {
		fails, ok := h.setMember(o1, ms[i].name, v1)
		h.m.Check(h.st, ok && fails, token.NoPos, "%s: a variable with the name of the method %s can be set", what, ms[i].name)
	}
	bound(" after setting variables")
	if v, fails := h.member(user, cls, "x"); true {
		h.m.Check(h.st, v == nil && fails, token.NoPos, "%s: setting a variable of an object changes the class", what)
	}
	o3 := h.makeNew(user, "C", ncs(3), nd, vals)
	if o3 != nil {
		v, fails := h.member(user, o3, "x")
		h.m.Check(h.st, v == nil && fails, token.NoPos, "%s: a new object has the variable of another one", what)
	}
	return calls
}
