package main

// Symbolic floats: exact reals num/den or sqrt(num/den) over integer terms.
// lvl 0: exactly representable; lvl 1: one correctly rounded operation applied
// to exact operands; lvl 2: several rounded operations.  Comparisons of values
// that are mathematically distinct are decided exactly (all operands are small
// integers or quotients of small integers, so distinct values differ by far
// more than the accumulated rounding error); a comparison of mathematically
// equal values, one of which is lvl 2, is left open (tie variable).

import (
	"math"
	"math/big"
)

type SymF struct {
	num, den *Term
	sqrt     bool
	nn       bool // the computed value is certainly not negative
	lvl      uint8
	alt      *fAlt // set on merged values: comparisons distribute over it
}

type fkey struct {
	num, den *Term
	sqrt     bool
}

type fAlt struct {
	q      *Term
	a, b   Value
	leaves int
}

// nneg: the value the machine computes is certainly >= 0.
func nneg(s *SymF) bool { return s.nn || s.sqrt || s.lvl < 2 && s.num.lo >= 0 }

// nonneg makes the sign of a multiplicand known.
func (p *path) nonneg(s *SymF, what string) *SymF {
	if s.num.lo >= 0 || s.sqrt {
		return s
	}
	c := p.tc.Lt(s.num, p.tc.Int(0))
	if p.branch(c) {
		unsup("%s", what)
	}
	r := *s
	r.num = p.tc.Ite(c, p.tc.Int(0), s.num)
	r.alt = nil
	return &r
}

func leavesOf(v Value) int {
	if s, ok := v.(*SymF); ok && s.alt != nil {
		return s.alt.leaves
	}
	return 1
}

const maxLeaves = 12

func (p *path) fconst(f float64) (*SymF, bool) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	if math.Abs(f) > 1<<40 {
		return nil, false
	}
	for k := 0; k <= 20; k++ {
		s := f * float64(int64(1)<<k)
		if s == math.Trunc(s) {
			if math.Abs(s) > 1<<44 {
				return nil, false
			}
			return &SymF{num: p.tc.Int(int64(s)), den: p.tc.Int(int64(1) << k)}, true
		}
	}
	if math.Abs(f) < 1e-14 { // rounding residue
		return &SymF{num: p.tc.Int(0), den: p.tc.Int(1), lvl: 2}, true
	}
	// decimal constants (1e-5, 0.1, ...): close to an exact decimal fraction
	dec := func(to int, tol float64) *SymF {
		ten := 1.0
		for k, d := 1, int64(10); k <= to; k, d = k+1, d*10 {
			ten *= 10
			s := f * ten
			r := math.Round(s)
			if r != 0 && math.Abs(r) < 1<<30 && math.Abs(s-r) <= tol*math.Abs(r) {
				return &SymF{num: p.tc.Int(int64(r)), den: p.tc.Int(d), lvl: 2}
			}
		}
		return nil
	}
	if math.Abs(f) < 1e-4 {
		if s := dec(12, 4e-16); s != nil {
			return s, true
		}
	}
	if s := dec(4, 1e-13); s != nil {
		return s, true
	}
	// close to a fraction with a small denominator (2/3, ...)
	for d := 3; d < 400; d++ {
		s := f * float64(d)
		r := math.Round(s)
		if r != 0 && math.Abs(r) < 1<<30 && math.Abs(s-r) <= 1e-13*math.Abs(r) {
			return &SymF{num: p.tc.Int(int64(r)), den: p.tc.Int(int64(d)), lvl: 2}, true
		}
	}
	// close to the square root of a fraction with a small denominator
	if f > 0 && f < 1<<20 {
		for d := 1; d < 400; d++ {
			s := f * f * float64(d)
			r := math.Round(s)
			if r != 0 && math.Abs(r) < 1<<30 && math.Abs(s-r) <= 1e-14*math.Abs(r)*4 {
				return &SymF{num: p.tc.Int(int64(r)), den: p.tc.Int(int64(d)), sqrt: true, lvl: 2}, true
			}
		}
	}
	if s := dec(12, 4e-16); s != nil {
		return s, true
	}
	return nil, false
}

func (p *path) toSymF(v Value) *SymF {
	switch x := v.(type) {
	case *SymF:
		return x
	case float64:
		if s, ok := p.fconst(x); ok {
			return s
		}
		unsup("float constant %v in symbolic arithmetic", x)
	}
	unsup("not a float: %T", v)
	return nil
}

func constF(s *SymF) (float64, bool) {
	if s.num.isConst() && s.den.isConst() {
		if !s.sqrt && s.lvl == 0 {
			return float64(s.num.c) / float64(s.den.c), true
		}
	}
	return 0, false
}

func (p *path) simpF(s *SymF) Value {
	if c, ok := constF(s); ok {
		return c
	}
	return s
}

func pow2(t *Term) bool {
	return t.isConst() && t.c > 0 && t.c&(t.c-1) == 0
}

func (p *path) one() *Term { return p.tc.Int(1) }

func (p *path) fadd(a, b *SymF, sub bool) Value {
	tc := p.tc
	if a.sqrt || b.sqrt {
		if c, ok := constF(b); ok && c == 0 {
			return a
		}
		if c, ok := constF(a); ok && c == 0 && !sub {
			return b
		}
		if sub {
			return &SymDiff{a: a, b: b}
		}
		unsup("addition of square roots")
	}
	op := tc.Add
	if sub {
		op = tc.Sub
	}
	var n, d *Term
	if a.den == b.den {
		n, d = op(a.num, b.num), a.den
	} else {
		n, d = op(tc.Mul(a.num, b.den), tc.Mul(b.num, a.den)), tc.Mul(a.den, b.den)
	}
	lvl := uint8(2)
	if a.lvl == 0 && b.lvl == 0 && pow2(a.den) && pow2(b.den) {
		lvl = 0
	}
	if c, ok := constF(b); ok && c == 0 {
		lvl = a.lvl
	}
	if c, ok := constF(a); ok && c == 0 {
		lvl = b.lvl
	}
	return p.simpF(&SymF{num: n, den: d, lvl: lvl, nn: !sub && nneg(a) && nneg(b)})
}

func (p *path) fmul(a, b *SymF) Value {
	tc := p.tc
	if c, ok := constF(a); ok && (c == 1 || c == 0) {
		if c == 0 {
			return 0.0
		}
		return p.simpF(b)
	}
	if c, ok := constF(b); ok && (c == 1 || c == 0) {
		if c == 0 {
			return 0.0
		}
		return p.simpF(a)
	}
	lvl := uint8(2)
	if a.lvl == 0 && b.lvl == 0 && pow2(a.den) && pow2(b.den) {
		lvl = 0
	}
	if a.sqrt && b.sqrt {
		if a == b {
			return p.simpF(&SymF{num: a.num, den: a.den, lvl: 2})
		}
		return &SymF{num: tc.Mul(a.num, b.num), den: tc.Mul(a.den, b.den), sqrt: true, lvl: 2}
	}
	if a.sqrt != b.sqrt {
		if b.sqrt {
			a, b = b, a
		}
		b = p.nonneg(b, "negative multiple of a square root")
		return &SymF{num: tc.Mul(a.num, tc.Mul(b.num, b.num)), den: tc.Mul(a.den, tc.Mul(b.den, b.den)), sqrt: true, lvl: 2}
	}
	nn := a == b || a.num == b.num && a.den == b.den && a.lvl == b.lvl || nneg(a) && nneg(b)
	return p.simpF(&SymF{num: tc.Mul(a.num, b.num), den: tc.Mul(a.den, b.den), lvl: lvl, nn: nn})
}

// fdiv: the caller has established b != 0 and knows its sign.
func (p *path) fdiv(a, b *SymF, bneg bool) Value {
	tc := p.tc
	if a.sqrt || b.sqrt {
		if bneg {
			unsup("sqrt division")
		}
		sq := func(s *SymF) (*Term, *Term) {
			if s.sqrt {
				return s.num, s.den
			}
			s = p.nonneg(s, "negative in sqrt division")
			return tc.Mul(s.num, s.num), tc.Mul(s.den, s.den)
		}
		an, ad := sq(a)
		bn, bd := sq(b)
		return &SymF{num: tc.Mul(an, bd), den: p.posT(tc.Mul(ad, bn)), sqrt: true, lvl: 2}
	}
	lvl := uint8(2)
	if a.lvl == 0 && b.lvl == 0 {
		lvl = 1
		if pow2(b.num) && pow2(b.den) && pow2(a.den) {
			lvl = 0
		}
	}
	n := a.num
	d := b.num
	if a.den.isConst() && b.den.isConst() && a.den == b.den {
	} else {
		n = tc.Mul(n, b.den)
		d = tc.Mul(a.den, d)
	}
	if bneg {
		n, d = tc.Neg(n), tc.Neg(d)
	}
	if n == d {
		return 1.0
	}
	return p.simpF(&SymF{num: n, den: p.posT(d), lvl: lvl, nn: nneg(a) && nneg(b)})
}

// pos narrows the interval of a term known to be positive on this path.
func (p *path) posT(t *Term) *Term {
	if t.lo >= 1 {
		return t
	}
	return p.tc.Ite(p.tc.Lt(p.tc.Int(0), t), t, p.tc.Int(1))
}

func (p *path) fneg(a *SymF) Value {
	if a.sqrt {
		unsup("negated square root")
	}
	return p.simpF(&SymF{num: p.tc.Neg(a.num), den: a.den, lvl: a.lvl})
}

func (p *path) fabs(a *SymF) Value {
	if a.sqrt {
		return a
	}
	tc := p.tc
	if a.num.lo >= 0 {
		return a
	}
	n := tc.Ite(tc.Lt(a.num, tc.Int(0)), tc.Neg(a.num), a.num)
	return p.simpF(&SymF{num: n, den: a.den, lvl: a.lvl, nn: true})
}

func (p *path) fsqrt(a *SymF) Value {
	if a.sqrt {
		unsup("nested square roots")
	}
	lvl := uint8(2)
	if a.lvl == 0 {
		lvl = 1
	}
	n := a.num
	return &SymF{num: n, den: a.den, sqrt: true, lvl: lvl}
}

// cmpTerms returns (a<b, a==b) over the reals.
func (p *path) cmpTerms(a, b *SymF) (*Term, *Term) {
	tc := p.tc
	if a.sqrt == b.sqrt {
		if a.den == b.den {
			return tc.Lt(a.num, b.num), tc.Eq(a.num, b.num)
		}
		l, r := tc.Mul(a.num, b.den), tc.Mul(b.num, a.den)
		return tc.Lt(l, r), tc.Eq(l, r)
	}
	if a.sqrt {
		// sqrt(p/q) vs r/s
		sq := tc.Mul(b.num, b.num)
		l, r := tc.Mul(a.num, tc.Mul(b.den, b.den)), tc.Mul(sq, a.den)
		z := tc.Int(0)
		nn := tc.Le(z, b.num)
		return tc.And(nn, tc.Lt(l, r)), tc.And(nn, tc.Eq(l, r))
	}
	gt, eq := p.cmpTerms(b, a)
	return tc.And(tc.Not(gt), tc.Not(eq)), eq
}

type fpair struct{ an, ad, bn, bd int }

// SymDiff is a difference involving square roots, kept for comparison with 0.
type SymDiff struct {
	a, b Value
	abs  bool
}

// dcmp compares such a difference with a constant near 0.
func (p *path) dcmp(d *SymDiff, bv Value) (lt, eq, gt *Term) {
	tc := p.tc
	c, ok := bv.(float64)
	if !ok || math.Abs(c) > 1e-8 {
		unsup("addition of square roots")
	}
	l, e, g := p.fcmp(d.a, d.b)
	if d.abs {
		l, g = tc.fls, tc.Or(l, g)
	}
	switch {
	case c > 0:
		return tc.Or(l, e), tc.fls, g
	case c < 0:
		return l, tc.fls, tc.Or(e, g)
	}
	return l, e, g
}

// fcmp returns the conditions a<b, a==b, a>b.
func (p *path) fcmp(av, bv Value) (lt, eq, gt *Term) {
	tc := p.tc
	if d, ok := av.(*SymDiff); ok {
		return p.dcmp(d, bv)
	}
	if d, ok := bv.(*SymDiff); ok {
		l, e, g := p.dcmp(d, av)
		return g, e, l
	}
	if fa, ok := av.(float64); ok {
		if fb, ok := bv.(float64); ok {
			return tc.Bool(fa < fb), tc.Bool(fa == fb), tc.Bool(fa > fb)
		}
		g, e, l := p.fcmp(bv, av)
		return l, e, g
	}
	a := av.(*SymF)
	if bs, ok := bv.(*SymF); ok && a == bs {
		return tc.fls, tc.tru, tc.fls
	}
	if leavesOf(a)*leavesOf(bv) <= 24 {
		if a.alt != nil {
			l1, e1, g1 := p.fcmp(a.alt.a, bv)
			l2, e2, g2 := p.fcmp(a.alt.b, bv)
			return tc.Ite(a.alt.q, l1, l2), tc.Ite(a.alt.q, e1, e2), tc.Ite(a.alt.q, g1, g2)
		}
		if bs, ok := bv.(*SymF); ok && bs.alt != nil {
			l1, e1, g1 := p.fcmp(a, bs.alt.a)
			l2, e2, g2 := p.fcmp(a, bs.alt.b)
			return tc.Ite(bs.alt.q, l1, l2), tc.Ite(bs.alt.q, e1, e2), tc.Ite(bs.alt.q, g1, g2)
		}
	}
	if fb, ok := bv.(float64); ok {
		if math.IsNaN(fb) {
			return tc.fls, tc.fls, tc.fls
		}
		if math.Abs(fb) > 1<<40 {
			return tc.Bool(fb > 0), tc.fls, tc.Bool(fb < 0)
		}
		if fb != 0 && math.Abs(fb) < 1e-8 {
			l, e, g := p.fcmpExact(a, p.toSymF(0.0))
			if fb > 0 {
				return tc.Or(l, e), tc.fls, g
			}
			return l, tc.fls, tc.Or(e, g)
		}
	}
	var b *SymF
	if fb, ok := bv.(float64); ok {
		if _, ok := p.fconst(fb); ok {
			b = p.toSymF(bv)
		} else {
			if !a.den.isConst() || a.den.c <= 0 {
				unsup("comparison with float constant %v", fb)
			}
			if a.sqrt && fb < 0 {
				return tc.fls, tc.fls, tc.tru
			}
			w := new(big.Rat).SetFloat64(fb)
			if a.sqrt {
				w.Mul(w, w)
			}
			w.Mul(w, new(big.Rat).SetInt64(a.den.c))
			f, _ := w.Float64()
			r := math.Round(f)
			if math.Abs(f) > 1<<44 {
				return tc.Bool(fb > 0), tc.fls, tc.Bool(fb < 0)
			}
			if !(a.lvl == 0 && !a.sqrt) && math.Abs(f-r) <= 1e-9*math.Max(1, math.Abs(f)) {
				b = &SymF{num: tc.Int(int64(r)), den: a.den, sqrt: a.sqrt, lvl: 2}
			} else {
				fl := new(big.Int).Div(w.Num(), w.Denom()).Int64()
				if w.IsInt() {
					return tc.Lt(a.num, tc.Int(fl)), tc.Eq(a.num, tc.Int(fl)), tc.Lt(tc.Int(fl), a.num)
				}
				le := tc.Le(a.num, tc.Int(fl))
				return le, tc.fls, tc.Not(le)
			}
		}
	} else {
		b = p.toSymF(bv)
	}
	if a == b || (a.num == b.num && a.den == b.den && a.sqrt == b.sqrt) {
		if a == b || (a.lvl < 2 && b.lvl < 2) {
			return tc.fls, tc.tru, tc.fls
		}
	}
	l, e, g := p.fcmpExact(a, b)
	if (a.lvl < 2 && b.lvl < 2) || e == tc.fls {
		return l, e, g
	}
	// tie: consistent per unordered pair
	if p.noTies {
		return l, e, g
	}
	if p.tieVal {
		a, b = p.sameF(a), p.sameF(b)
	}
	k := [2]*SymF{a, b}
	if t, ok := p.ties[k]; ok {
		return tc.Or(l, tc.And(e, tc.Eq(t, tc.Int(-1)))), tc.And(e, tc.Eq(t, tc.Int(0))), tc.Or(g, tc.And(e, tc.Eq(t, tc.Int(1))))
	}
	if t, ok := p.ties[[2]*SymF{b, a}]; ok {
		return tc.Or(l, tc.And(e, tc.Eq(t, tc.Int(1)))), tc.And(e, tc.Eq(t, tc.Int(0))), tc.Or(g, tc.And(e, tc.Eq(t, tc.Int(-1))))
	}
	lo, hi := int64(-1), int64(1)
	if c, ok := constF(b); ok && c == 0 && nneg(a) {
		lo = 0
	}
	if c, ok := constF(a); ok && c == 0 && nneg(b) {
		hi = 0
	}
	p.ntie++
	t := p.newVar("tie", false, lo, hi)
	p.ties[k] = t
	return tc.Or(l, tc.And(e, tc.Eq(t, tc.Int(-1)))), tc.And(e, tc.Eq(t, tc.Int(0))), tc.Or(g, tc.And(e, tc.Eq(t, tc.Int(1))))
}

// sameF is the first value met that is exactly the same expression.
func (p *path) sameF(a *SymF) *SymF {
	k := fkey{a.num, a.den, a.sqrt}
	if b, ok := p.fsame[k]; ok {
		return b
	}
	if p.fsame == nil {
		p.fsame = map[fkey]*SymF{}
	}
	p.fsame[k] = a
	return a
}

func (p *path) fcmpExact(a, b *SymF) (lt, eq, gt *Term) {
	l, e := p.cmpTerms(a, b)
	return l, e, p.tc.And(p.tc.Not(l), p.tc.Not(e))
}

func (p *path) fite(q *Term, av, bv Value) (Value, bool) {
	tc := p.tc
	if fa, ok := av.(float64); ok {
		if fb, ok := bv.(float64); ok && (fa == fb || (fa != fa && fb != fb)) {
			return av, true
		}
		if _, ok := p.fconst(fa); !ok {
			return nil, false
		}
	}
	if fb, ok := bv.(float64); ok {
		if _, ok := p.fconst(fb); !ok {
			return nil, false
		}
	}
	a, b := p.toSymF(av), p.toSymF(bv)
	if a == b {
		return a, true
	}
	var alt *fAlt
	if n := leavesOf(av) + leavesOf(bv); n <= maxLeaves {
		alt = &fAlt{q, av, bv, n}
	} else if _, ok := av.(float64); ok {
		alt = &fAlt{q, av, noAlt(b), 2}
	} else if _, ok := bv.(float64); ok {
		alt = &fAlt{q, noAlt(a), bv, 2}
	}
	lvl := a.lvl
	if b.lvl > lvl {
		lvl = b.lvl
	}
	if a.sqrt != b.sqrt {
		sq := func(s *SymF) (*SymF, bool) {
			if s.sqrt {
				return s, true
			}
			if s.num.lo < 0 {
				return nil, false
			}
			return &SymF{num: tc.Mul(s.num, s.num), den: tc.Mul(s.den, s.den), sqrt: true, lvl: s.lvl}, true
		}
		var ok1, ok2 bool
		a, ok1 = sq(a)
		b, ok2 = sq(b)
		if !ok1 || !ok2 {
			return nil, false
		}
	}
	if a.den != b.den && a.den.isConst() && b.den.isConst() && lcm(a.den.c, b.den.c) <= 4096 {
		// common denominator keeps power-of-two denominators constant
		d := tc.Int(lcm(a.den.c, b.den.c))
		an := tc.Mul(a.num, tc.Int(d.c/a.den.c))
		bn := tc.Mul(b.num, tc.Int(d.c/b.den.c))
		return &SymF{num: tc.Ite(q, an, bn), den: d, sqrt: a.sqrt, lvl: lvl, alt: alt, nn: nneg(a) && nneg(b)}, true
	}
	return &SymF{num: tc.Ite(q, a.num, b.num), den: tc.Ite(q, a.den, b.den), sqrt: a.sqrt, lvl: lvl, alt: alt, nn: nneg(a) && nneg(b)}, true
}

func noAlt(s *SymF) *SymF {
	if s.alt == nil {
		return s
	}
	c := *s
	c.alt = nil
	return &c
}

func lcm(a, b int64) int64 {
	x, y := a, b
	for y != 0 {
		x, y = y, x%y
	}
	return a / x * b
}
