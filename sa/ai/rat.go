package ai

import "strconv"

// Rat is a small rational number.
type Rat struct{ N, D int64 }

// RI makes an integer.
func RI(n int64) Rat { return Rat{n, 1} }

// R makes n/d.
func R(n, d int64) Rat {
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(abs(n), d)
	if g > 1 {
		n, d = n/g, d/g
	}
	return Rat{n, d}
}

// The zero value Rat{} is treated as 0/1.
func (a Rat) d() int64 {
	if a.D == 0 {
		return 1
	}
	return a.D
}

func (a Rat) Add(b Rat) Rat { return R(a.N*b.d()+b.N*a.d(), a.d()*b.d()) }
func (a Rat) Sub(b Rat) Rat { return R(a.N*b.d()-b.N*a.d(), a.d()*b.d()) }
func (a Rat) Mul(b Rat) Rat { return R(a.N*b.N, a.d()*b.d()) }
func (a Rat) Div(b Rat) Rat { return R(a.N*b.d(), a.d()*b.N) }
func (a Rat) Neg() Rat      { return Rat{-a.N, a.d()} }
func (a Rat) Zero() bool    { return a.N == 0 }
func (a Rat) Sign() int {
	switch {
	case a.N > 0:
		return 1
	case a.N < 0:
		return -1
	}
	return 0
}
func (a Rat) Is(n int64) bool { return a.N == n && a.d() == 1 }
func (a Rat) Cmp(b Rat) int   { return a.Sub(b).Sign() }
func (a Rat) String() string {
	if a.d() == 1 {
		return strconv.FormatInt(a.N, 10)
	}
	return strconv.FormatInt(a.N, 10) + "/" + strconv.FormatInt(a.D, 10)
}

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func lcm(a, b int64) int64 { return a / gcd(a, b) * b }
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
