package ai

import "sort"

// LinSys is a conjunction of linear constraints over integer atoms: affine
// equalities in solved form plus inequalities (each >= 0) plus disequalities.
type LinSys struct {
	eqs  map[*Term]*Lin // atom -> linear form over non-pivot atoms
	ineq []*Lin
	neq  []*Lin
	bad  bool
	lens map[*Term]bool // length atoms whose bounds are present
}

// note adds the implicit bounds of length atoms.
func (s *LinSys) note(l *Lin) {
	for _, lt := range l.T {
		a := lt.A
		if a.K != KApp || len(a.Args) != 1 || a.Name != "len" && a.Name != "cap" || s.lens[a] {
			continue
		}
		n := make(map[*Term]bool, len(s.lens)+1)
		for k := range s.lens {
			n[k] = true
		}
		n[a] = true
		s.lens = n
		s.AddGE0(LinOf(a))
		if a.Name == "cap" {
			s.AddGE0(LinOf(a).add(LinOf(App("len", TInt, a.Args[0])), RI(-1)))
		}
	}
}

// NewLinSys returns the trivially true system.
func NewLinSys() *LinSys { return &LinSys{eqs: map[*Term]*Lin{}} }

// Clone copies the system.
func (s *LinSys) Clone() *LinSys {
	n := &LinSys{eqs: make(map[*Term]*Lin, len(s.eqs)), bad: s.bad, lens: s.lens}
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	n.ineq = append([]*Lin(nil), s.ineq...)
	n.neq = append([]*Lin(nil), s.neq...)
	return n
}

func (s *LinSys) reduce(l *Lin) *Lin {
	hit := false
	for _, lt := range l.T {
		if _, ok := s.eqs[lt.A]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := &Lin{K: l.K}
	for _, lt := range l.T {
		if e, ok := s.eqs[lt.A]; ok {
			r = r.add(e, lt.C)
		} else {
			r = r.add(&Lin{T: []LT{lt}}, RI(1))
		}
	}
	return r
}

// EntailsGE0 reports whether l >= 0 is implied.
func (s *LinSys) EntailsGE0(l *Lin) bool {
	if s.bad {
		return true
	}
	s.note(l)
	l = normIneq(s.reduce(l))
	if l.isConst() {
		return l.K.Sign() >= 0
	}
	for _, q := range s.ineq {
		if d := l.add(q, RI(-1)); d.isConst() && d.K.Sign() >= 0 {
			return true
		}
	}
	neg := l.scale(RI(-1)).add(linConst(1), RI(-1))
	return infeasible(s.ineq, neg)
}

// EntailsEQ0 reports whether l == 0 is implied.
func (s *LinSys) EntailsEQ0(l *Lin) bool {
	if s.bad {
		return true
	}
	s.note(l)
	l = s.reduce(l)
	if l.isConst() {
		return l.K.Zero()
	}
	return s.EntailsGE0(l) && s.EntailsGE0(l.scale(RI(-1)))
}

// EntailsNE0 reports whether l != 0 is implied.
func (s *LinSys) EntailsNE0(l *Lin) bool {
	if s.bad {
		return true
	}
	s.note(l)
	l = s.reduce(l)
	if l.isConst() {
		return !l.K.Zero()
	}
	nl := normEq(l)
	for _, q := range s.neq {
		if normEq(s.reduce(q)).key() == nl.key() {
			return true
		}
	}
	if s.EntailsGE0(l.add(linConst(1), RI(-1))) {
		return true
	}
	return s.EntailsGE0(l.scale(RI(-1)).add(linConst(1), RI(-1)))
}

// AddGE0 adds l >= 0; false when the system becomes infeasible.
func (s *LinSys) AddGE0(l *Lin) bool {
	if s.bad {
		return false
	}
	s.note(l)
	l = normIneq(s.reduce(l))
	if l.isConst() {
		if l.K.Sign() < 0 {
			s.bad = true
		}
		return !s.bad
	}
	if s.EntailsGE0(l) {
		return true
	}
	if s.EntailsGE0(l.scale(RI(-1)).add(linConst(1), RI(-1))) {
		s.bad = true
		return false
	}
	// equality?
	if s.EntailsGE0(l.scale(RI(-1))) {
		return s.AddEQ0(l)
	}
	// drop weaker parallels
	out := s.ineq[:0:0]
	for _, q := range s.ineq {
		if d := q.add(l, RI(-1)); d.isConst() && d.K.Sign() >= 0 {
			continue
		}
		out = append(out, q)
	}
	s.ineq = append(out, l)
	return s.recheckNeq()
}

func (s *LinSys) recheckNeq() bool {
	for again := true; again; {
		again = false
		for i, q := range s.neq {
			q = s.reduce(q)
			if q.isConst() {
				if q.K.Zero() {
					s.bad = true
					return false
				}
				s.neq = append(append([]*Lin(nil), s.neq[:i]...), s.neq[i+1:]...)
				again = true
				break
			}
			t := RI(0)
			if s.EntailsGE0(q) {
				t = RI(1)
			} else if s.EntailsGE0(q.scale(RI(-1))) {
				t = RI(-1)
			} else {
				continue
			}
			s.neq = append(append([]*Lin(nil), s.neq[:i]...), s.neq[i+1:]...)
			if !s.AddGE0(q.scale(t).add(linConst(1), RI(-1))) {
				return false
			}
			again = true
			break
		}
	}
	return true
}

// AddNE0 adds l != 0.
func (s *LinSys) AddNE0(l *Lin) bool {
	if s.bad {
		return false
	}
	l = s.reduce(l)
	if l.isConst() {
		if l.K.Zero() {
			s.bad = true
		}
		return !s.bad
	}
	if s.EntailsEQ0(l) {
		s.bad = true
		return false
	}
	s.neq = append(append([]*Lin(nil), s.neq...), normEq(l))
	return s.recheckNeq()
}

// AddEQ0 adds l == 0.
func (s *LinSys) AddEQ0(l *Lin) bool {
	if s.bad {
		return false
	}
	s.note(l)
	l = s.reduce(l)
	if l.isConst() {
		if !l.K.Zero() {
			s.bad = true
		}
		return !s.bad
	}
	// pivot: the youngest atom (so that older atoms survive), preferring unit coefficients
	var p LT
	for _, lt := range integral(l).T {
		if p.A == nil {
			p = lt
			continue
		}
		lu, pu := abs(lt.C.N) == 1, abs(p.C.N) == 1
		if lu != pu {
			if lu {
				p = lt
			}
			continue
		}
		if lt.A.Birth > p.A.Birth || lt.A.Birth == p.A.Birth && lt.A.ID > p.A.ID {
			p = lt
		}
	}
	c := l.coef(p.A)
	e := &Lin{K: l.K}
	for _, lt := range l.T {
		if lt.A != p.A {
			e.T = append(e.T, lt)
		}
	}
	e = e.scale(RI(-1).Div(c))
	for k, v := range s.eqs {
		s.eqs[k] = v.subst(p.A, e)
	}
	s.eqs[p.A] = e
	old := s.ineq
	s.ineq = nil
	for _, q := range old {
		if q.coef(p.A).Zero() {
			s.ineq = append(s.ineq, q)
		}
	}
	for _, q := range old {
		if !q.coef(p.A).Zero() {
			if !s.AddGE0(q.subst(p.A, e)) {
				return false
			}
		}
	}
	// the kept ones may be contradicted
	if infeasible(s.ineq, nil) {
		s.bad = true
		return false
	}
	return s.recheckNeq()
}

// infeasible decides (by Fourier-Motzkin over the connected component of
// extra) whether rows plus extra have no rational solution. extra may be nil.
func infeasible(rows []*Lin, extra *Lin) bool {
	var work []*Lin
	if extra != nil {
		atoms := map[*Term]bool{}
		for _, lt := range extra.T {
			atoms[lt.A] = true
		}
		used := make([]bool, len(rows))
		for ch := true; ch; {
			ch = false
			for i, q := range rows {
				if used[i] {
					continue
				}
				for _, lt := range q.T {
					if atoms[lt.A] {
						used[i] = true
						ch = true
						for _, m := range q.T {
							atoms[m.A] = true
						}
						work = append(work, q)
						break
					}
				}
			}
		}
		work = append(work, extra)
	} else {
		work = append(work, rows...)
	}
	return fm(work)
}

const fmCap = 400

func fm(rows []*Lin) bool {
	for {
		// constants
		out := rows[:0:0]
		best := map[string]*Lin{}
		var order []string
		for _, q := range rows {
			q = normIneq(q)
			if q.isConst() {
				if q.K.Sign() < 0 {
					return true
				}
				continue
			}
			k := (&Lin{T: q.T}).key()
			if b, ok := best[k]; !ok {
				best[k] = q
				order = append(order, k)
			} else if q.K.Cmp(b.K) < 0 {
				best[k] = q
			}
		}
		for _, k := range order {
			out = append(out, best[k])
		}
		rows = out
		if len(rows) == 0 {
			return false
		}
		// choose the cheapest atom
		pos, neg := map[*Term]int{}, map[*Term]int{}
		var atoms []*Term
		seen := map[*Term]bool{}
		for _, q := range rows {
			for _, lt := range q.T {
				if !seen[lt.A] {
					seen[lt.A] = true
					atoms = append(atoms, lt.A)
				}
				if lt.C.Sign() > 0 {
					pos[lt.A]++
				} else {
					neg[lt.A]++
				}
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
		var x *Term
		cost := 1 << 30
		for _, a := range atoms {
			c := pos[a]*neg[a] - pos[a] - neg[a]
			if c < cost {
				cost, x = c, a
			}
		}
		var nrows, ps, ns []*Lin
		for _, q := range rows {
			switch q.coef(x).Sign() {
			case 0:
				nrows = append(nrows, q)
			case 1:
				ps = append(ps, q)
			default:
				ns = append(ns, q)
			}
		}
		for _, p := range ps {
			cp := p.coef(x)
			for _, n := range ns {
				cn := n.coef(x).Neg()
				nrows = append(nrows, p.scale(cn).add(n, cp))
			}
		}
		if len(nrows) > fmCap {
			return false
		}
		rows = nrows
	}
}

// rowsEq returns the equalities as rows (each == 0).
func (s *LinSys) rowsEq() []*Lin {
	var keys []*Term
	for k := range s.eqs {
		keys = append(keys, k)
	}
	sortTerms(keys)
	var out []*Lin
	for _, k := range keys {
		out = append(out, s.eqs[k].add(&Lin{T: []LT{{k, RI(1)}}}, RI(-1)))
	}
	return out
}

// eliminate removes every atom for which drop holds. Equalities are eliminated
// exactly; inequalities are kept only when expressible through equalities or
// by one bounded Fourier-Motzkin step.
func (s *LinSys) eliminate(drop func(*Term) bool) *LinSys {
	eq := s.rowsEq()
	in := append([]*Lin(nil), s.ineq...)
	for {
		var x *Term
		var row int
		for i, r := range eq {
			for _, lt := range r.T {
				if drop(lt.A) {
					x, row = lt.A, i
					break
				}
			}
			if x != nil {
				break
			}
		}
		if x == nil {
			break
		}
		r := eq[row]
		c := r.coef(x)
		e := &Lin{K: r.K}
		for _, lt := range r.T {
			if lt.A != x {
				e.T = append(e.T, lt)
			}
		}
		e = e.scale(RI(-1).Div(c))
		eq = append(append([]*Lin(nil), eq[:row]...), eq[row+1:]...)
		for i := range eq {
			eq[i] = eq[i].subst(x, e)
		}
		for i := range in {
			in[i] = in[i].subst(x, e)
		}
	}
	// inequalities: bounded FM on the atoms to drop
	for {
		var x *Term
		for _, q := range in {
			for _, lt := range q.T {
				if drop(lt.A) && (x == nil || lt.A.ID < x.ID) {
					x = lt.A
				}
			}
		}
		if x == nil {
			break
		}
		var keep, ps, ns []*Lin
		for _, q := range in {
			switch q.coef(x).Sign() {
			case 0:
				keep = append(keep, q)
			case 1:
				ps = append(ps, q)
			default:
				ns = append(ns, q)
			}
		}
		if len(ps)*len(ns) <= 60 {
			for _, p := range ps {
				for _, n := range ns {
					keep = append(keep, normIneq(p.scale(n.coef(x).Neg()).add(n, p.coef(x))))
				}
			}
		}
		in = keep
	}
	out := NewLinSys()
	for _, r := range eq {
		out.AddEQ0(r)
	}
	for _, q := range in {
		out.AddGE0(q)
	}
	return out
}

// affineHull intersects the row spaces (Karr join) of two systems.
func affineHull(a, b *LinSys) []*Lin {
	// Zassenhaus: rows [r|r] for a, [r|0] for b; rows with zero left half give
	// the intersection in the right half.
	var atoms []*Term
	seen := map[*Term]bool{}
	collect := func(rows []*Lin) {
		for _, r := range rows {
			for _, lt := range r.T {
				if !seen[lt.A] {
					seen[lt.A] = true
					atoms = append(atoms, lt.A)
				}
			}
		}
	}
	ra, rb := a.rowsEq(), b.rowsEq()
	collect(ra)
	collect(rb)
	sortTerms(atoms)
	n := len(atoms) + 1
	idx := map[*Term]int{}
	for i, x := range atoms {
		idx[x] = i
	}
	vec := func(l *Lin, both bool) []Rat {
		v := make([]Rat, 2*n)
		for i := range v {
			v[i] = RI(0)
		}
		for _, lt := range l.T {
			v[idx[lt.A]] = lt.C
		}
		v[n-1] = l.K.Add(RI(0))
		if both {
			copy(v[n:], v[:n])
		}
		return v
	}
	var m [][]Rat
	for _, r := range ra {
		m = append(m, vec(r, true))
	}
	for _, r := range rb {
		m = append(m, vec(r, false))
	}
	row := 0
	for col := 0; col < 2*n && row < len(m); col++ {
		p := -1
		for i := row; i < len(m); i++ {
			if !m[i][col].Zero() {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[row], m[p] = m[p], m[row]
		c := m[row][col]
		for k := col; k < 2*n; k++ {
			m[row][k] = m[row][k].Div(c)
		}
		for i := range m {
			if i != row && !m[i][col].Zero() {
				f := m[i][col]
				for k := col; k < 2*n; k++ {
					m[i][k] = m[i][k].Sub(f.Mul(m[row][k]))
				}
			}
		}
		row++
	}
	var out []*Lin
	for _, v := range m {
		zero := true
		for k := 0; k < n; k++ {
			if !v[k].Zero() {
				zero = false
				break
			}
		}
		if !zero {
			continue
		}
		l := &Lin{K: v[2*n-1]}
		nz := false
		for i, x := range atoms {
			if !v[n+i].Zero() {
				l.T = append(l.T, LT{x, v[n+i]})
				nz = true
			}
		}
		if nz {
			out = append(out, l)
		}
	}
	return out
}
